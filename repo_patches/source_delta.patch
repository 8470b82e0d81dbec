From 6a6477241fdab595bddc705b9325b76967ac623a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:58 +0000
Subject: [PATCH 01/34] fix: engine samples phase functions in the container's
 frame

The kernel used the sampled direction as a world direction, so anisotropic
re-emission inside a rotated node pointed the wrong way.
---
 pvtrace/engine/_kernel.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index f2a3fae..49d5ee2 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -789,8 +789,8 @@ cdef int trace_one(
                 # Radiative: re-emit with new direction (and wavelength)
                 sample_phase(S.comp_phase_type[comp], S.comp_phase_param[comp],
                              &rng, new_dir)
-                for i in range(3):
-                    direction[i] = new_dir[i]
+                # Phase functions sample in the container's local frame
+                transform_vector(S.l2w + container * 16, new_dir, direction)
                 source = comp
                 if ctype == COMP_LUMINOPHORE:
                     ax = S.ems_x + S.ems_start[comp]
-- 
2.43.0


From 10cdb3307ec19f68eabc1174efc991267d3809d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:58 +0000
Subject: [PATCH 02/34] fix: values below a histogram's range are not counted
 in its first bin

The bin index was truncated toward zero, so values up to one bin width
below the start were counted in bin 0 (kernel and reference tally).
---
 pvtrace/engine/_kernel.pyx | 4 ++++
 pvtrace/engine/tally.py    | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index 49d5ee2..76bcf12 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -542,6 +542,8 @@ cdef inline void tally(SceneT* S, AccBase* AB, int tid, int sel, int node,
         for h in range(S.rec_hist_start[r], S.rec_hist_start[r] + S.rec_hist_n[r]):
             va = prop_value(S.h_prop_a[h], wavelength, angle, duration,
                             travelled, lpos)
+            if not (va >= S.h_lo_a[h] and va < S.h_hi_a[h]):
+                continue
             ia = <int>((va - S.h_lo_a[h]) / (S.h_hi_a[h] - S.h_lo_a[h]) * S.h_na[h])
             if ia < 0 or ia >= S.h_na[h]:
                 continue
@@ -550,6 +552,8 @@ cdef inline void tally(SceneT* S, AccBase* AB, int tid, int sel, int node,
             else:
                 vb = prop_value(S.h_prop_b[h], wavelength, angle, duration,
                                 travelled, lpos)
+                if not (vb >= S.h_lo_b[h] and vb < S.h_hi_b[h]):
+                    continue
                 ib = <int>((vb - S.h_lo_b[h]) / (S.h_hi_b[h] - S.h_lo_b[h]) * S.h_nb[h])
                 if ib < 0 or ib >= S.h_nb[h]:
                     continue
diff --git a/pvtrace/engine/tally.py b/pvtrace/engine/tally.py
index ae9d8c6..2bd2f5a 100644
--- a/pvtrace/engine/tally.py
+++ b/pvtrace/engine/tally.py
@@ -79,6 +79,8 @@ class _TallyState:
 
 
 def _bin_index(value, hist):
+    if not hist.start <= value < hist.stop:
+        return -1
     index = int((value - hist.start) / (hist.stop - hist.start) * hist.bins)
     return index if 0 <= index < hist.bins else -1
 
-- 
2.43.0


From 70c8a9667616af96f0a0f094ab608d37b8b425be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:58 +0000
Subject: [PATCH 03/34] fix: recorder tallies do not depend on which rays are
 logged

A logged ray was killed when its event budget ran out, so the recorders
missed its remaining interactions; an unlogged one was traced to its end.
---
 pvtrace/engine/_kernel.pyx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index 76bcf12..ae16925 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -659,12 +659,14 @@ cdef int trace_one(
     while True:
         count += 1
 
-        # Kill the ray when its event budget is exhausted rather than
-        # silently dropping events (leave room for the KILL record).
+        # End the history with a KILL when its event budget is exhausted
+        # rather than silently dropping events (leave room for the KILL
+        # record). The ray itself is traced on, unlogged, so the recorders
+        # tally the same interactions whether or not it is logged.
         if base >= 0 and nevents >= elog.max_events - 1:
             record(elog, base, &nevents, EV_KILL, -1, -1, -1, -1, source,
                    pos, direction, NULL, wavelength, travelled, duration)
-            break
+            base = -1
 
         # --- next_hit: intersect every node ---------------------------
         nhits = 0
-- 
2.43.0


From a75f687ce5ca9b7962707cc794b2c0ab817d9514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:58 +0000
Subject: [PATCH 04/34] fix: size the kernel's thread pool like its tally
 accumulators

num_threads=0 let OpenMP choose the number of threads while the
accumulators had one row: the other threads wrote out of bounds.
---
 pvtrace/engine/_kernel.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index ae16925..35ffdd1 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -1078,7 +1078,7 @@ def trace_bundle(
     cdef long i, base
     cdef int tid, nev
     with nogil:
-        for i in prange(n, num_threads=num_threads, schedule="dynamic", chunksize=64):
+        for i in prange(n, num_threads=nthr, schedule="dynamic", chunksize=64):
             tid = threadid()
             if record_every > 0 and i % record_every == 0:
                 base = (i // record_every) * max_events
-- 
2.43.0


From 815d451f6603d5c70dd3ca64ff4a54800673a5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:26 +0000
Subject: [PATCH 05/34] fix: throws of different worker tasks get different
 identifiers

A pool process may run two tasks; with its process id as the identifier
the rays of both were stored in the database as the same throws.
---
 pvtrace/scene/scene.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pvtrace/scene/scene.py b/pvtrace/scene/scene.py
index 63f5263..9372c62 100644
--- a/pvtrace/scene/scene.py
+++ b/pvtrace/scene/scene.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 import multiprocessing
 import os
+import uuid
 from typing import Optional, Sequence, Tuple
 from anytree import PostOrderIter, LevelOrderIter
 from pvtrace.scene.node import Node
@@ -66,7 +67,9 @@ def do_simulation_add_to_queue(scene, num_rays, seed, queue, end_rays):
         np.random.seed(seed)
 
     count = 0
-    pid = os.getpid()
+    # One pool process can run several of these tasks, so its process id
+    # alone does not tell the throws of two tasks apart.
+    pid = f"{os.getpid()}-{uuid.uuid4().hex}"
 
     # What is an "end ray"?
     # Only record major ray events should as entering/reflecting from nodes
-- 
2.43.0


From 80cc5cba2890c720cc757446189c13d43e0126c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:26 +0000
Subject: [PATCH 06/34] fix: load scene files with the safe YAML loader

yaml.Loader runs Python constructors named in the file before the
document is validated.
---
 pvtrace/cli/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/cli/parse.py b/pvtrace/cli/parse.py
index c2fb7db..2ae5053 100644
--- a/pvtrace/cli/parse.py
+++ b/pvtrace/cli/parse.py
@@ -65,7 +65,7 @@ def load_schema():
 def load_spec(filename):
     """Load user's scene specification file."""
     with open(filename, "r") as fp:
-        spec = yaml.load(fp, Loader=yaml.Loader)
+        spec = yaml.safe_load(fp)
         return spec
 
 
-- 
2.43.0


From 4fc06f1f1e3409b3b12ce7e8ddd72d07ed644417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:26 +0000
Subject: [PATCH 07/34] fix: scene files may give a component's coefficient or
 its spectrum alone

The truth value of a spectrum array raises, a zero coefficient counted as
missing, and the spectrum of scatterers and luminophores was required.
---
 pvtrace/cli/parse.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/pvtrace/cli/parse.py b/pvtrace/cli/parse.py
index 2ae5053..443059f 100644
--- a/pvtrace/cli/parse.py
+++ b/pvtrace/cli/parse.py
@@ -253,15 +253,17 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
             hist = spec["hist"]
 
         spectrum = None
+        if "spectrum" in spec:
+            spectrum = None
         if "spectrum" in spec:
             spectrum = parse_spectrum(spec["spectrum"], named_type="absorption")
 
-        if coefficient and (spectrum is not None):
+        if coefficient is not None and (spectrum is not None):
             spectrum[:, 1] = spectrum[:, 1] / numpy.max(spectrum[:, 1]) * coefficient
             return Absorber(spectrum, name=name, hist=hist)
-        elif spectrum:
+        elif spectrum is not None:
             return Absorber(spectrum, name=name, hist=hist)
-        elif coefficient:
+        elif coefficient is not None:
             return Absorber(coefficient, name=name)
 
         raise ValueError("Unexpected absorber format.")
@@ -287,9 +289,11 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
         if "quantum-yield" in spec:
             quantum_yield = spec["quantum-yield"]
 
-        spectrum = parse_spectrum(spec["spectrum"], named_type="absorption")
+        spectrum = None
+        if "spectrum" in spec:
+            spectrum = parse_spectrum(spec["spectrum"], named_type="absorption")
 
-        if coefficient and (spectrum is not None):
+        if coefficient is not None and (spectrum is not None):
             spectrum[:, 1] = spectrum[:, 1] / numpy.max(spectrum[:, 1]) * coefficient
             return Scatterer(
                 spectrum,
@@ -298,7 +302,7 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
                 name=name,
                 hist=hist,
             )
-        elif spectrum:
+        elif spectrum is not None:
             return Scatterer(
                 spectrum,
                 quantum_yield=quantum_yield,
@@ -306,7 +310,7 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
                 name=name,
                 hist=hist,
             )
-        elif coefficient:
+        elif coefficient is not None:
             return Scatterer(
                 coefficient,
                 quantum_yield=quantum_yield,
@@ -338,9 +342,11 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
             if "quantum-yield" in spec["emission"]:
                 quantum_yield = spec["emission"]["quantum-yield"]
 
-        absorption_spectrum = parse_spectrum(
-            spec["absorption"]["spectrum"], named_type="absorption"
-        )
+        absorption_spectrum = None
+        if "spectrum" in spec["absorption"]:
+            absorption_spectrum = parse_spectrum(
+                spec["absorption"]["spectrum"], named_type="absorption"
+            )
 
         emission_spectrum = parse_spectrum(
             spec["emission"]["spectrum"], named_type="emission"
@@ -349,7 +355,7 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
         if emission_spectrum is None:
             raise ValueError("Luminophore must have an emission spectrum")
 
-        if coefficient and (absorption_spectrum is not None):
+        if coefficient is not None and (absorption_spectrum is not None):
             absorption_spectrum[:, 1] = (
                 absorption_spectrum[:, 1]
                 / numpy.max(absorption_spectrum[:, 1])
@@ -363,7 +369,7 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
                 name=name,
                 hist=hist,
             )
-        elif absorption_spectrum:
+        elif absorption_spectrum is not None:
             return Luminophore(
                 absorption_spectrum,
                 emission=emission_spectrum,
@@ -372,7 +378,7 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
                 name=name,
                 hist=hist,
             )
-        elif coefficient:
+        elif coefficient is not None:
             return Luminophore(
                 coefficient,
                 emission=emission_spectrum,
-- 
2.43.0


From 9e1406a97cb1a4d1cbfc7a4e5800b936bd3e4256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:26 +0000
Subject: [PATCH 08/34] fix: components accept a whole number as constant
 coefficient

An int left the component without its absorption distribution.
---
 pvtrace/material/component.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvtrace/material/component.py b/pvtrace/material/component.py
index 82d3b44..371d605 100644
--- a/pvtrace/material/component.py
+++ b/pvtrace/material/component.py
@@ -107,8 +107,8 @@ class Scatterer(Component):
         self._coefficient = coefficient
         if coefficient is None:
             raise ValueError("Coefficient must be specified.")
-        elif isinstance(coefficient, (float,)):
-            self._abs_dist = Distribution(x=None, y=coefficient, hist=hist)
+        elif isinstance(coefficient, (int, float)):
+            self._abs_dist = Distribution(x=None, y=float(coefficient), hist=hist)
         elif isinstance(coefficient, np.ndarray):
             self._abs_dist = Distribution(
                 x=coefficient[:, 0], y=coefficient[:, 1], hist=hist
-- 
2.43.0


From 3e9d74e14e42c7bb90028dac3bf42b55b533ac78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:26 +0000
Subject: [PATCH 09/34] fix: the material of a sphere or cylinder can be
 assigned

The setter was bound to another name, so the property was read-only.
---
 pvtrace/geometry/cylinder.py | 2 +-
 pvtrace/geometry/sphere.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvtrace/geometry/cylinder.py b/pvtrace/geometry/cylinder.py
index 70181b8..57aed28 100644
--- a/pvtrace/geometry/cylinder.py
+++ b/pvtrace/geometry/cylinder.py
@@ -23,7 +23,7 @@ class Cylinder(Geometry):
         return self._material
 
     @material.setter
-    def set_material(self, new_value):
+    def material(self, new_value):
         self._material = new_value
 
     def is_on_surface(self, point):
diff --git a/pvtrace/geometry/sphere.py b/pvtrace/geometry/sphere.py
index 45b4c4f..fc4848d 100644
--- a/pvtrace/geometry/sphere.py
+++ b/pvtrace/geometry/sphere.py
@@ -21,7 +21,7 @@ class Sphere(Geometry):
         return self._material
 
     @material.setter
-    def set_material(self, new_value):
+    def material(self, new_value):
         self._material = new_value
 
     def is_on_surface(self, point):
-- 
2.43.0


From f3d65594d993626198d7e5b23e2f0dce87252d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:26 +0000
Subject: [PATCH 10/34] fix: Henyey-Greenstein scattering with g=0 is isotropic

The limit was tested after dividing by g.
---
 pvtrace/material/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pvtrace/material/utils.py b/pvtrace/material/utils.py
index 905a2f1..9b04caa 100644
--- a/pvtrace/material/utils.py
+++ b/pvtrace/material/utils.py
@@ -114,13 +114,13 @@ def isotropic() -> numpy.ndarray:
 def henyey_greenstein(g=0.0) -> numpy.ndarray:
     """Henyey-Greenstein phase function."""
     # https://www.astro.umd.edu/~jph/HG_note.pdf
-    p = np.random.uniform(0, 1)
-    s = 2 * p - 1
-    mu = 1 / (2 * g) * (1 + g ** 2 - ((1 - g ** 2) / (1 + g * s)) ** 2)
     # Inverse is not defined at g=0 but in the limit
     # tends to the isotropic case.
     if close_to_zero(g):
         return isotropic()
+    p = np.random.uniform(0, 1)
+    s = 2 * p - 1
+    mu = 1 / (2 * g) * (1 + g ** 2 - ((1 - g ** 2) / (1 + g * s)) ** 2)
     phi = 2 * np.pi * np.random.uniform()
     theta = np.arccos(mu)
     coords = spherical_to_cart(theta, phi)
-- 
2.43.0


From 586ad6caed3e6e8f31ce0ea8a952dca6a313dfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:26 +0000
Subject: [PATCH 11/34] fix: a distribution rejects data with any non-finite
 value

Only data without a single finite value was rejected.
---
 pvtrace/material/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/material/distribution.py b/pvtrace/material/distribution.py
index 235ef22..7eb4c29 100644
--- a/pvtrace/material/distribution.py
+++ b/pvtrace/material/distribution.py
@@ -35,7 +35,7 @@ class Distribution(object):
         else:
             if not np.all(np.diff(x) > 0):
                 raise ValueError("x must be sorted and ascending.")
-            if not np.isfinite(y).any():
+            if not np.isfinite(y).all():
                 raise ValueError("All values of y must be finite.")
             if np.any(y < 0.0):
                 raise ValueError(
-- 
2.43.0


From 85dcdcb38d70c2f3fe20328738f37c924fc68c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:26 +0000
Subject: [PATCH 12/34] fix: look_at accepts directions of any length

The rotation formula holds for unit vectors only.
---
 pvtrace/scene/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/scene/node.py b/pvtrace/scene/node.py
index 017bcab..5fcdc0a 100644
--- a/pvtrace/scene/node.py
+++ b/pvtrace/scene/node.py
@@ -51,7 +51,7 @@ class Node(NodeMixin, Transformable):
         [1] https://math.stackexchange.com/q/476311
         """
         a = np.array([0, 0, 1])  # +z direction
-        b = np.array(vector)  # direction we want to face
+        b = np.array(vector) / np.linalg.norm(vector)  # direction we want to face
         c = np.dot(a, b)
         if np.isclose(c, -1.0):
             # Anti-parallel rotation can be done without computation
-- 
2.43.0


From 93d94ac88f3701e96274d1362c3f445a32d217c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:26 +0000
Subject: [PATCH 13/34] fix: translate works after setting an integer location

In-place addition cannot cast to the integer array, and changed arrays
handed out earlier by the location getter.
---
 pvtrace/geometry/transformable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/geometry/transformable.py b/pvtrace/geometry/transformable.py
index a405999..21f8001 100644
--- a/pvtrace/geometry/transformable.py
+++ b/pvtrace/geometry/transformable.py
@@ -82,7 +82,7 @@ class Transformable(object):
         """Apply a relative translation to the node location. Here
         the vector is defined in the parent's coordinate system.
         """
-        self._location += np.array(vector)
+        self._location = self._location + np.array(vector)
         self._pose = np.dot(translation_matrix(vector), self._pose)
         return self
 
-- 
2.43.0


From db755d6368ceb1cf23a3aa497fc51a21e13e4031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:26 +0000
Subject: [PATCH 14/34] fix: a ray can be propagated by zero distance

A ray absorbed on the spot (infinite attenuation) raised
ZeroDivisionError.
---
 pvtrace/light/ray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/light/ray.py b/pvtrace/light/ray.py
index 7860ea3..c3dbe73 100644
--- a/pvtrace/light/ray.py
+++ b/pvtrace/light/ray.py
@@ -70,7 +70,7 @@ class Ray:
             position=new_position,
             travelled=self.travelled + distance,
             duration=self.duration
-            + 1 / (speed_of_light_cm_per_s / refractive_index / distance),
+            + distance * refractive_index / speed_of_light_cm_per_s,
         )
         return new_ray
 
-- 
2.43.0


From e0c80570ff289b09bee34c8aada20d4d8bbbc3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:26 +0000
Subject: [PATCH 15/34] fix: unknown emission methods raise ValueError

They raised UnboundLocalError.
---
 pvtrace/material/component.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pvtrace/material/component.py b/pvtrace/material/component.py
index 371d605..020c03e 100644
--- a/pvtrace/material/component.py
+++ b/pvtrace/material/component.py
@@ -421,6 +421,8 @@ class Luminophore(Scatterer):
         elif method == "full":
             # Emission energy is sampled from full distribution
             p1 = 0.0
+        else:
+            raise ValueError("Unknown emission method.", {"method": method})
         p2 = 1.0
         gamma = np.random.uniform(p1, p2)
         wavelength = dist.sample(gamma)
-- 
2.43.0


From dbb25a475c8df605ad8edf1d8cffd450643497c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:52 +0000
Subject: [PATCH 16/34] fix: time lost, reacted and killed print their samples

handle_output takes the (throw id, sample) rows; the three commands passed
the bare samples and failed with an IndexError.
---
 pvtrace/cli/time.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pvtrace/cli/time.py b/pvtrace/cli/time.py
index 4a45856..93ef085 100644
--- a/pvtrace/cli/time.py
+++ b/pvtrace/cli/time.py
@@ -234,8 +234,7 @@ def lost(
     cur = conn.cursor()
     result = cur.execute(*sql).fetchall()
     if len(result) > 0:
-        _, samples = zip(*result)
-        handle_output(samples, output, vertical=vertical)
+        handle_output(result, output, vertical=vertical)
 
 
 @app.command(short_help="Time when reacted in node")
@@ -270,8 +269,7 @@ def reacted(
     cur = conn.cursor()
     result = cur.execute(*sql).fetchall()
     if len(result) > 0:
-        _, samples = zip(*result)
-        handle_output(samples, output, vertical=vertical)
+        handle_output(result, output, vertical=vertical)
 
 
 @app.command(short_help="Time when killed in node")
@@ -306,8 +304,7 @@ def killed(
     cur = conn.cursor()
     result = cur.execute(*sql).fetchall()
     if len(result) > 0:
-        _, samples = zip(*result)
-        handle_output(samples, output, vertical=vertical)
+        handle_output(result, output, vertical=vertical)
 
 
 def main():
-- 
2.43.0


From 56269181e09a19f04016745e4fd9e1adeaf90ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:52 +0000
Subject: [PATCH 17/34] fix: LSC keeps the wavelength range it is given

---
 pvtrace/device/lsc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index df5116c..4b0ffc7 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -95,7 +95,8 @@ class LSC(object):
     def __init__(self, size, wavelength_range=None, n0=1.0, n1=1.5):
         super(LSC, self).__init__()
         if wavelength_range is None:
-            self.wavelength_range = np.arange(400, 800)
+            wavelength_range = np.arange(400, 800)
+        self.wavelength_range = wavelength_range
 
         self.size = size  # centimetres
         self.n0 = n0
-- 
2.43.0


From c855aa33baa9a4da75d0dbd8b116a7a954f47dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:52 +0000
Subject: [PATCH 18/34] fix: LSC.add_scatterer finds the Scatterer class

---
 pvtrace/device/lsc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index 4b0ffc7..4648613 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -1,4 +1,4 @@
-from pvtrace.material.component import Absorber, Luminophore
+from pvtrace.material.component import Absorber, Luminophore, Scatterer
 from pvtrace.light.light import Light, rectangular_mask
 from pvtrace.light.event import Event
 from pvtrace.scene.node import Node
-- 
2.43.0


From f1e0b2f14e5218117904b9d0ca1e0719e6be0247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:52 +0000
Subject: [PATCH 19/34] fix: the specular air gap mirror reflects

It is a perfect reflector, but its reflected direction was the refracted
one, so rays went through.
---
 pvtrace/device/lsc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index 4648613..2cbb569 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -73,7 +73,7 @@ class AirGapMirror(FresnelSurfaceDelegate):
     def reflected_direction(self, surface, ray, geometry, container, adjacent):
         if not self.lsc._air_gap_mirror_info["lambertian"]:
             # Specular reflection
-            return super(AirGapMirror, self).transmitted_direction(
+            return super(AirGapMirror, self).reflected_direction(
                 surface, ray, geometry, container, adjacent
             )
         else:
-- 
2.43.0


From c5cf06fd593f2edd1ca46b852ff5af272b3f0d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:52 +0000
Subject: [PATCH 20/34] fix: LSC labels the near and far facets like its solar
 cells do

The solar cells have near at -y and far at +y.
---
 pvtrace/device/lsc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index 2cbb569..1d5160b 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -448,8 +448,8 @@ class LSC(object):
         zmin, zmax = -0.5 * height, 0.5 * height
         df.loc[(np.isclose(df["position_x"], xmin, atol=EPS_ZERO)), "facet"] = "left"
         df.loc[(np.isclose(df["position_x"], xmax, atol=EPS_ZERO)), "facet"] = "right"
-        df.loc[(np.isclose(df["position_y"], ymin, atol=EPS_ZERO)), "facet"] = "far"
-        df.loc[(np.isclose(df["position_y"], ymax, atol=EPS_ZERO)), "facet"] = "near"
+        df.loc[(np.isclose(df["position_y"], ymin, atol=EPS_ZERO)), "facet"] = "near"
+        df.loc[(np.isclose(df["position_y"], ymax, atol=EPS_ZERO)), "facet"] = "far"
         df.loc[(np.isclose(df["position_z"], zmin, atol=EPS_ZERO)), "facet"] = "bottom"
         df.loc[(np.isclose(df["position_z"], zmax, atol=EPS_ZERO)), "facet"] = "top"
         return df
-- 
2.43.0


From 0f6e23e1b9a4b74b6edc8bbed311ca2b881e517a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:52 +0000
Subject: [PATCH 21/34] fix: LSC.simulate can be called again to append rays

The second call failed with an UnboundLocalError, and the cached counts
would not have included its rays.
---
 pvtrace/device/lsc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index 1d5160b..8423e84 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -343,7 +343,9 @@ class LSC(object):
 
         # Simulate can be called multiple time to append rays to the store
         if self._store is None:
-            store = {"entrance_rays": [], "exit_rays": []}
+            self._store = {"entrance_rays": [], "exit_rays": []}
+        store = self._store
+        self._counts = None  # previous counts do not include the new rays
 
         vis = self._renderer
         count = 0
@@ -368,7 +370,6 @@ class LSC(object):
                 count += 1
                 progress(count)
 
-        self._store = store
         print("Tracing finished.")
         print("Preparing results.")
         df = self._make_dataframe()
-- 
2.43.0


From 269200935427dd9e4984dc6124c5746591c6d3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:52 +0000
Subject: [PATCH 22/34] fix: LSC counts rays lost in the device

The tracer ends a lost ray with NONRADIATIVE or REACT; ABSORB is never the
final event, so lost rays were dropped from the results.
---
 pvtrace/device/lsc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index 8423e84..5d117e4 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -353,7 +353,7 @@ class LSC(object):
             history = photon_tracer.follow(scene, ray, emit_method=emit_method)
             rays, events = zip(*history)
             store["entrance_rays"].append((rays[1], events[1]))
-            if events[-1] in (Event.ABSORB, Event.KILL):
+            if events[-1] in (Event.NONRADIATIVE, Event.REACT, Event.KILL):
                 # final event is a lost store path information at final event
                 store["exit_rays"].append((rays[-1], events[-1]))
             elif events[-1] == Event.EXIT:
@@ -594,7 +594,9 @@ class LSC(object):
         for facet in all_facets:
             incident += counts["Solar In"][facet]
 
-        lost = self.spectrum(source="all", events={"absorb"}, kind="last").shape[0]
+        lost = self.spectrum(
+            source="all", events={"nonradiative"}, kind="last"
+        ).shape[0]
 
         optical_efficiency = lum_collected / incident
         waveguide_efficiency = lum_collected / (lum_collected + lum_escaped)
-- 
2.43.0


From d066460e4769b795e9650dd96282b3876da4f5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:52 +0000
Subject: [PATCH 23/34] fix: LSC builds its results without DataFrame.append

pandas 2 removed it.
---
 pvtrace/device/lsc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index 5d117e4..a9dd5ad 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -381,22 +381,23 @@ class LSC(object):
     def _make_dataframe(self):
 
         # to-do: Only need to process additional rays not whole dataframe! Optimise!
-        df = pd.DataFrame()
+        rows = []
 
         # Rays entering the scene
         for ray, event in self._store["entrance_rays"]:
             rep = asdict(ray)
             rep["kind"] = "entrance"
             rep["event"] = event.name.lower()
-            df = df.append(rep, ignore_index=True)
+            rows.append(rep)
 
         # Rays exiting the scene
         for ray, event in self._store["exit_rays"]:
             rep = asdict(ray)
             rep["kind"] = "exit"
             rep["event"] = event.name.lower()
-            df = df.append(rep, ignore_index=True)
+            rows.append(rep)
 
+        df = pd.DataFrame(rows)
         self._df = df
         return df
 
-- 
2.43.0


From a74ce644c418bd41d373cee886637d651859ace5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:52 +0000
Subject: [PATCH 24/34] fix: studio resolves file references next to the
 document

Uploaded data files are saved next to the document, but the document was
parsed from a temporary file in the current directory.
---
 pvtrace/studio/server.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pvtrace/studio/server.py b/pvtrace/studio/server.py
index e5f9de7..0194656 100644
--- a/pvtrace/studio/server.py
+++ b/pvtrace/studio/server.py
@@ -44,8 +44,10 @@ class NoCacheStaticFiles(StaticFiles):
 class Studio:
     """Holds the current document and its parsed scene."""
 
-    def __init__(self, document=""):
+    def __init__(self, document="", directory=None):
         self.document = document
+        # Relative file references resolve against this directory
+        self.directory = directory
         self.scene = None
         self.spec = None
 
@@ -57,7 +59,7 @@ class Studio:
 
         # parse() validates against the JSON schema and reads from disk
         with tempfile.NamedTemporaryFile(
-            "w", suffix=".yml", delete=False, dir=os.getcwd()
+            "w", suffix=".yml", delete=False, dir=self.directory or os.getcwd()
         ) as fp:
             fp.write(text)
             path = fp.name
@@ -139,9 +141,11 @@ class Studio:
 def create_app(document_path=None):
     app = FastAPI(title="pvtrace studio")
     text = ""
+    directory = None
     if document_path:
         text = Path(document_path).read_text()
-    studio = Studio(text)
+        directory = Path(document_path).resolve().parent
+    studio = Studio(text, directory=directory)
 
     @app.get("/")
     async def index():
-- 
2.43.0


From 063ce873ffa96d6970678c85d969dae929c4cc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:52 +0000
Subject: [PATCH 25/34] fix: a studio run traces the scene it announced

An edit applied while the started message is sent replaced the scene.
---
 pvtrace/studio/server.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pvtrace/studio/server.py b/pvtrace/studio/server.py
index 0194656..285ccd8 100644
--- a/pvtrace/studio/server.py
+++ b/pvtrace/studio/server.py
@@ -213,7 +213,8 @@ def create_app(document_path=None):
             record_every = int(params.get("record_every", 1000))
             max_paths = int(params.get("max_paths", 200))
 
-            compiled = engine.compile_scene(studio.scene)
+            scene = studio.scene  # an edit during the run replaces it
+            compiled = engine.compile_scene(scene)
             hist_meta = _histogram_meta(compiled)
             await ws.send_json({"type": "started", "total": num_rays,
                                 "histograms": hist_meta})
@@ -227,7 +228,7 @@ def create_app(document_path=None):
             tic = time.perf_counter()
 
             stream = engine.simulate_stream(
-                studio.scene, num_rays, bundle=bundle, seed=seed,
+                scene, num_rays, bundle=bundle, seed=seed,
                 record_every=record_every,
             )
             while True:
-- 
2.43.0


From 458845e2689d5e9ffdabf282e6ed24fbab687c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:12 +0000
Subject: [PATCH 26/34] fix: a light asked for no particular number of rays
 emits until stopped

As documented; it emitted nothing.
---
 pvtrace/light/light.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/light/light.py b/pvtrace/light/light.py
index f0df3ea..28f7b92 100644
--- a/pvtrace/light/light.py
+++ b/pvtrace/light/light.py
@@ -242,7 +242,7 @@ class Light(object):
             The maximum number of rays this light source will generate. If set to
         None then the light will generate until manually terminated.
         """
-        if num_rays is None or num_rays == 0:
+        if num_rays == 0:
             return
         count = 0
         while True:
-- 
2.43.0


From 4d94ccc4d0b30410fc95a1f40cf766850ab2e78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:12 +0000
Subject: [PATCH 27/34] fix: scenes with too many nodes for the kernel are
 rejected as unsupported

The kernel raised ValueError after compilation, so callers did not fall
back to the Python tracer.
---
 pvtrace/engine/compiler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pvtrace/engine/compiler.py b/pvtrace/engine/compiler.py
index 9bc600c..cf90544 100644
--- a/pvtrace/engine/compiler.py
+++ b/pvtrace/engine/compiler.py
@@ -21,6 +21,7 @@ from pvtrace.material.utils import Cone, HenyeyGreenstein, isotropic
 # Volume interaction selectors cannot be restricted by surface facet
 VOLUME_EVENTS = {"lost", "reacted", "killed"}
 MAX_RECORDERS = 256  # per-ray distinct tracking array size in the kernel
+MAX_NODES = 128  # per-step hit array size in the kernel
 
 # Geometry type tags
 GEOM_BOX = 0
@@ -65,6 +66,10 @@ class CompiledScene:
             raise UnsupportedSceneError("Scene has no geometry nodes.")
         if scene.root.geometry is None:
             raise UnsupportedSceneError("Root node must have a geometry.")
+        if len(nodes) > MAX_NODES:
+            raise UnsupportedSceneError(
+                f"At most {MAX_NODES} geometry nodes are supported."
+            )
 
         n = len(nodes)
         self.scene = scene
-- 
2.43.0


From 87df5ce6259ca79b561be9248ee9eca5b3cf0866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:12 +0000
Subject: [PATCH 28/34] fix: emitting a bundle from a scene without lights is
 an error

It returned rays with zero direction and zero wavelength.
---
 pvtrace/engine/emit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pvtrace/engine/emit.py b/pvtrace/engine/emit.py
index 339a60a..a680724 100644
--- a/pvtrace/engine/emit.py
+++ b/pvtrace/engine/emit.py
@@ -98,6 +98,8 @@ def emit_bundle(scene, num_rays):
     `scene.emit`.
     """
     lights = scene.light_nodes
+    if num_rays > 0 and len(lights) == 0:
+        raise ValueError("The scene has no lights to emit rays from.")
     positions = np.zeros((num_rays, 3))
     directions = np.zeros((num_rays, 3))
     wavelengths = np.zeros(num_rays)
-- 
2.43.0


From 3345316632f44467f720b0a214820ab8319e4079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:45 +0000
Subject: [PATCH 29/34] fix: scale integer-valued spectrum files without
 truncating them

A CSV file whose numbers are all integers was read as an integer array, and
scaling its values to the given coefficient in place rounded them down.
---
 pvtrace/cli/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/cli/parse.py b/pvtrace/cli/parse.py
index 443059f..ccbc05a 100644
--- a/pvtrace/cli/parse.py
+++ b/pvtrace/cli/parse.py
@@ -239,7 +239,7 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
             index_col=0,
         )
         # like numpy.column_stack((x, y))
-        spectrum = df.iloc[:, 0:2].values
+        spectrum = df.iloc[:, 0:2].values.astype(float)
         return spectrum
 
     def parse_absorber(spec, name):
-- 
2.43.0


From 674160295dd70060c04d97ef3094a0c94ec2a4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 30/34] fix: remove the studio's temporary scene file when
 writing it fails

The file was written before the try block, so text that cannot be encoded (or a
full disk) left it behind in the document's folder.
---
 pvtrace/studio/server.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pvtrace/studio/server.py b/pvtrace/studio/server.py
index 285ccd8..ad7a2f0 100644
--- a/pvtrace/studio/server.py
+++ b/pvtrace/studio/server.py
@@ -58,12 +58,12 @@ class Studio:
             raise ValueError("Document is not a YAML mapping.")
 
         # parse() validates against the JSON schema and reads from disk
-        with tempfile.NamedTemporaryFile(
-            "w", suffix=".yml", delete=False, dir=self.directory or os.getcwd()
-        ) as fp:
-            fp.write(text)
-            path = fp.name
+        fd, path = tempfile.mkstemp(
+            suffix=".yml", dir=self.directory or os.getcwd(), text=True
+        )
         try:
+            with open(fd, "w") as fp:
+                fp.write(text)
             scene = parse_scene_file(path)
         finally:
             os.unlink(path)
-- 
2.43.0


From ebdfffebfff68900d4006ff7280acc7f9bb7d840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:39 +0000
Subject: [PATCH 31/34] fix: a new studio run waits for the previous one to
 stop

---
 pvtrace/studio/server.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pvtrace/studio/server.py b/pvtrace/studio/server.py
index ad7a2f0..aa57f4b 100644
--- a/pvtrace/studio/server.py
+++ b/pvtrace/studio/server.py
@@ -269,6 +269,9 @@ def create_app(document_path=None):
                         await ws.send_json({"type": "error",
                                             "message": "Apply a scene first."})
                         continue
+                    if task:  # one run at a time
+                        stop["flag"] = True
+                        await asyncio.wait([task])
                     stop["flag"] = False
                     task = asyncio.create_task(run(message))
                 elif command == "stop":
-- 
2.43.0


From 948c11e038122ac7116502b74639ecfb3efb6afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:47 +0000
Subject: [PATCH 32/34] fix: remove a ray history's exit baubles with its lines

---
 pvtrace/scene/renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/scene/renderer.py b/pvtrace/scene/renderer.py
index 9f9df80..1906043 100644
--- a/pvtrace/scene/renderer.py
+++ b/pvtrace/scene/renderer.py
@@ -318,7 +318,7 @@ class MeshcatRenderer(object):
                     )
                     vis[f"exit/{baubid}"].set_transform(tf.translation_matrix(start))
 
-                    ids.append(baubid)
+                    ids.append(f"exit/{baubid}")
 
         self.ray_histories.append(ids)
         if len(self.ray_histories) == self.max_histories:
-- 
2.43.0


From 3bdb613ba511672b82dbd6e178f8a76e5f79c278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:47 +0000
Subject: [PATCH 33/34] fix: show as many ray histories as the renderer was
 asked to keep

---
 pvtrace/scene/renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/scene/renderer.py b/pvtrace/scene/renderer.py
index 1906043..9f8293d 100644
--- a/pvtrace/scene/renderer.py
+++ b/pvtrace/scene/renderer.py
@@ -320,11 +320,11 @@ class MeshcatRenderer(object):
 
                     ids.append(f"exit/{baubid}")
 
-        self.ray_histories.append(ids)
         if len(self.ray_histories) == self.max_histories:
             ids_to_remove = self.ray_histories.popleft()
             for id_to_remove in ids_to_remove:
                 self.remove_object(id_to_remove)
+        self.ray_histories.append(ids)
 
         return ids
 
-- 
2.43.0


From 37ffba3c35a502815c25579c3cb7e105f1cd9547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:47 +0000
Subject: [PATCH 34/34] fix: shorten only the path segment that leaves the
 world

---
 pvtrace/scene/renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/scene/renderer.py b/pvtrace/scene/renderer.py
index 9f8293d..e0feb5a 100644
--- a/pvtrace/scene/renderer.py
+++ b/pvtrace/scene/renderer.py
@@ -298,7 +298,7 @@ class MeshcatRenderer(object):
             start = start_ray.position
             end = end_ray.position
             if world_segment == "short":
-                if end_ray == history[-1][0]:
+                if end_part[1] == Event.EXIT:
                     end = (
                         np.array(start_ray.position)
                         + np.array(start_ray.direction) * short_length
-- 
2.43.0

