From 3c4288d9746b2070cba7beba978fee216cf45e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:32 +0000
Subject: [PATCH 01/18] fix: time with a monotonic clock

time.time() follows wall-clock adjustments, so a backward jump during a run
produced negative category times.
---
 fvhoe/timer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fvhoe/timer.py b/fvhoe/timer.py
index 90de469..12676cc 100644
--- a/fvhoe/timer.py
+++ b/fvhoe/timer.py
@@ -55,7 +55,7 @@ class Timer:
             raise RuntimeError(
                 f"Cannot start '{cat}' timer since it is already in progress."
             )
-        self._start_time[cat] = time.time()
+        self._start_time[cat] = time.perf_counter()
 
     def stop(self, cat: str):
         """
@@ -68,7 +68,7 @@ class Timer:
             raise RuntimeError(
                 f"Cannot stop '{cat}' timer since it is not in progress."
             )
-        self.cum_time[cat] += time.time() - self._start_time[cat]
+        self.cum_time[cat] += time.perf_counter() - self._start_time[cat]
         self._start_time[cat] = None
 
     def to_dict(self) -> dict:
-- 
2.43.0


From 35f2ddb6a8a57e8a635ffd29667a95758c3a8ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:32 +0000
Subject: [PATCH 02/18] fix: commit lookup must not stop a solver from being
 built

With git missing, or with output that cannot be decoded or parsed, the
constructor raised FileNotFoundError, UnicodeDecodeError or IndexError.
---
 fvhoe/ode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fvhoe/ode.py b/fvhoe/ode.py
index 69c9f5b..08d4d32 100644
--- a/fvhoe/ode.py
+++ b/fvhoe/ode.py
@@ -90,6 +90,8 @@ class ODE(ABC):
             }
         except subprocess.CalledProcessError as e:
             return {"error": f"An error occurred: {e.stderr.strip()}"}
+        except Exception as e:
+            return {"error": f"An error occurred: {e}"}
 
     def integrate(
         self,
-- 
2.43.0


From 8db11658f0e1a3bf8a787cc3aec15afe9c1df045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:32 +0000
Subject: [PATCH 03/18] fix: ignore downbeats that lie in the past

Continuing a run with downbeats earlier than the current time took a step
of negative size back to the first of them.
---
 fvhoe/ode.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/fvhoe/ode.py b/fvhoe/ode.py
index 08d4d32..acc9fa8 100644
--- a/fvhoe/ode.py
+++ b/fvhoe/ode.py
@@ -146,9 +146,8 @@ class ODE(ABC):
         elif isinstance(downbeats, np.ndarray):
             downbeats = downbeats.tolist()
 
-        downbeats = sorted(set([0] + downbeats + [T]))[
-            1:
-        ]  # get unique values and ignore 0
+        # get unique values and ignore those that are already behind
+        downbeats = sorted({T, *(t for t in downbeats if self.t < t < T)})
         target_time = downbeats.pop(0) if exact else None
 
         # initial snapshot
-- 
2.43.0


From 2b9d1a56921435861aa8b89273c204d04df2592d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:32 +0000
Subject: [PATCH 04/18] fix: land exactly on the target time

t + (target - t) can round to either neighbour of the target. Rounding up
overshot T, or stepped back by one ulp to reach a downbeat.
---
 fvhoe/ode.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fvhoe/ode.py b/fvhoe/ode.py
index acc9fa8..0665b65 100644
--- a/fvhoe/ode.py
+++ b/fvhoe/ode.py
@@ -188,7 +188,11 @@ class ODE(ABC):
         dt, self.am("u")[...] = self.stepper(
             self.t, self.am("u"), target_time=target_time
         )
-        self.t += dt
+        # a step cut to reach the target lands on it, whatever t + dt rounds to
+        if target_time is not None and dt == target_time - self.t:
+            self.t = float(target_time)
+        else:
+            self.t += dt
         self.timestamps.append(self.t)
         self.step_count += 1
         self.step_helper_function()
-- 
2.43.0


From 000de5043e3a18030cccc863d36d1323cb8fda42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:32 +0000
Subject: [PATCH 05/18] fix: raise on an invalid time-step size

A nan time step made t nan, which ended the loop as if T had been reached:
integrate returned normally (and saved) without a final snapshot.
---
 fvhoe/ode.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fvhoe/ode.py b/fvhoe/ode.py
index 0665b65..4166cc9 100644
--- a/fvhoe/ode.py
+++ b/fvhoe/ode.py
@@ -185,9 +185,10 @@ class ODE(ABC):
         """
         integrate helper function
         """
-        dt, self.am("u")[...] = self.stepper(
-            self.t, self.am("u"), target_time=target_time
-        )
+        dt, unext = self.stepper(self.t, self.am("u"), target_time=target_time)
+        if not 0 < dt < np.inf:
+            raise RuntimeError(f"Invalid time-step size {dt} at t={self.t}")
+        self.am("u")[...] = unext
         # a step cut to reach the target lands on it, whatever t + dt rounds to
         if target_time is not None and dt == target_time - self.t:
             self.t = float(target_time)
-- 
2.43.0


From 558f2158f48ea0108f0dd011e9143ce9041fa26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:32 +0000
Subject: [PATCH 06/18] fix: let an interrupted integration be resumed

An exception (a failing callback, Ctrl-C in a notebook) left timer
categories in progress, and every later call raised RuntimeError.
---
 fvhoe/ode.py   |  9 ++++++++-
 fvhoe/timer.py | 16 ++++++++++++++++
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/fvhoe/ode.py b/fvhoe/ode.py
index 4166cc9..0729edb 100644
--- a/fvhoe/ode.py
+++ b/fvhoe/ode.py
@@ -93,7 +93,14 @@ class ODE(ABC):
         except Exception as e:
             return {"error": f"An error occurred: {e}"}
 
-    def integrate(
+    def integrate(self, *args, **kwargs) -> None:
+        """
+        see _integrate. if interrupted by an exception, can be called again to resume
+        """
+        with self.timer.recover():
+            self._integrate(*args, **kwargs)
+
+    def _integrate(
         self,
         T: float = None,
         n: int = None,
diff --git a/fvhoe/timer.py b/fvhoe/timer.py
index 12676cc..9c3c742 100644
--- a/fvhoe/timer.py
+++ b/fvhoe/timer.py
@@ -1,3 +1,4 @@
+from contextlib import contextmanager
 import numpy as np
 import time
 from typing import Iterable, Union
@@ -71,6 +72,21 @@ class Timer:
         self.cum_time[cat] += time.perf_counter() - self._start_time[cat]
         self._start_time[cat] = None
 
+    @contextmanager
+    def recover(self):
+        """
+        if an exception leaves the context, abandon the measurements that were started
+        inside of it so that their categories can be started again
+        """
+        in_progress = dict(self._start_time)
+        try:
+            yield
+        except BaseException:
+            for cat in self.cats:
+                if self._start_time[cat] != in_progress.get(cat):
+                    self._start_time[cat] = None
+            raise
+
     def to_dict(self) -> dict:
         out = {cat: np.round(t, self.precision) for cat, t in self.cum_time.items()}
         return out
-- 
2.43.0


From 4149c6b6ed681d45816db86c005774b3851afc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:32 +0000
Subject: [PATCH 07/18] fix: average troubles over the substeps of their own
 step

The first step divided by one substep too many, and a step that followed an
interrupted one included its substeps.
---
 fvhoe/solver.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fvhoe/solver.py b/fvhoe/solver.py
index 1d70828..77bae99 100644
--- a/fvhoe/solver.py
+++ b/fvhoe/solver.py
@@ -832,6 +832,11 @@ class EulerSolver(ODE):
             )
         self.trouble_counter += 1
 
+    def take_step(self, target_time: float = None):
+        # start the mean over substeps afresh, also after an interrupted step
+        self.trouble_counter = 0
+        super().take_step(target_time=target_time)
+
     def step_helper_function(self):
         # log
         if self.a_posteriori_slope_limiting:
-- 
2.43.0


From 2233f3d61954086cae6c0dde8a527282913cbb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:32 +0000
Subject: [PATCH 08/18] fix: revise both copies of a periodic interface

Trouble next to a periodic boundary revised the flux on one side of it only,
so mass, momentum and energy were not conserved.
---
 fvhoe/slope_limiting.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/fvhoe/slope_limiting.py b/fvhoe/slope_limiting.py
index a13f12d..d2c11b7 100644
--- a/fvhoe/slope_limiting.py
+++ b/fvhoe/slope_limiting.py
@@ -378,6 +378,18 @@ def broadcast_to_troubled_interfaces(
             troubled_z_interfaces[:, :, :-1] = np.maximum(
                 troubled_z_interfaces[:, :, :-1], trouble
             )
+    # the first and last interfaces of a periodic dimension are the same interface
+    if periodic_x and "x" in dims:
+        shared = np.maximum(troubled_x_interfaces[0], troubled_x_interfaces[-1])
+        troubled_x_interfaces[0] = troubled_x_interfaces[-1] = shared
+    if periodic_y and "y" in dims:
+        shared = np.maximum(troubled_y_interfaces[:, 0], troubled_y_interfaces[:, -1])
+        troubled_y_interfaces[:, 0] = troubled_y_interfaces[:, -1] = shared
+    if periodic_z and "z" in dims:
+        shared = np.maximum(
+            troubled_z_interfaces[:, :, 0], troubled_z_interfaces[:, :, -1]
+        )
+        troubled_z_interfaces[:, :, 0] = troubled_z_interfaces[:, :, -1] = shared
     troubled_x_interfaces = troubled_x_interfaces[np.newaxis, ...]
     troubled_y_interfaces = troubled_y_interfaces[np.newaxis, ...]
     troubled_z_interfaces = troubled_z_interfaces[np.newaxis, ...]
-- 
2.43.0


From 228efb29a69b3cb74ce4a6a5cc5f6cac91bb7b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:32 +0000
Subject: [PATCH 09/18] fix: save solvers with attributes that json cannot
 encode

write_snapshots raised TypeError for every fv_ic solver (u0 is
NotImplemented) and for numpy integers.
---
 fvhoe/solver.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fvhoe/solver.py b/fvhoe/solver.py
index 77bae99..64a0d69 100644
--- a/fvhoe/solver.py
+++ b/fvhoe/solver.py
@@ -949,7 +949,12 @@ class EulerSolver(ODE):
         sorted_keys = sorted(attrs_to_save.keys(), key=lambda x: (x.lower(), x))
         attrs_to_save = {key: attrs_to_save[key] for key in sorted_keys}
         with open(os.path.join(snapshot_dir, "attrs.json"), "w") as f:
-            json.dump(attrs_to_save, f, indent=4)
+            json.dump(
+                attrs_to_save,
+                f,
+                indent=4,
+                default=lambda v: v.item() if isinstance(v, np.generic) else repr(v),
+            )
 
         # generate timing report
         with open(os.path.join(snapshot_dir, "timing.txt"), "w") as f:
-- 
2.43.0


From 90d9a9e815469305fe666499b805636b355c83e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:32 +0000
Subject: [PATCH 10/18] fix: restore snapshot_times together with the snapshots

---
 fvhoe/solver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fvhoe/solver.py b/fvhoe/solver.py
index 64a0d69..c220238 100644
--- a/fvhoe/solver.py
+++ b/fvhoe/solver.py
@@ -887,6 +887,7 @@ class EulerSolver(ODE):
         if os.path.exists(self.snapshot_dir):
             with open(os.path.join(self.snapshot_dir, "arrs.pkl"), "rb") as f:
                 self.snapshots = pickle.load(f)
+            self.snapshot_times = [snapshot["t"] for snapshot in self.snapshots]
             print(f"Read from snapshot directory {self.snapshot_dir}")
             return True
         return False
-- 
2.43.0


From 0b025d3ca31381b7659581ef3acf293911071ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:54 +0000
Subject: [PATCH 11/18] fix: save snapshots atomically

A run killed while saving left a directory that every later run with the same
snapshot_dir failed to load, and a failed or killed overwrite destroyed the
previous snapshots before the new ones were complete.
---
 fvhoe/solver.py | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/fvhoe/solver.py b/fvhoe/solver.py
index c220238..f469a2e 100644
--- a/fvhoe/solver.py
+++ b/fvhoe/solver.py
@@ -27,6 +27,7 @@ import os
 import pickle
 import shutil
 from typing import Callable, Dict, Iterable, Tuple
+from uuid import uuid4
 
 try:
     from cupy import ndarray as cp_ndarray
@@ -902,12 +903,34 @@ class EulerSolver(ODE):
 
         if os.path.exists(snapshot_dir) and not overwrite:
             raise FileExistsError(f"Snapshot directory {snapshot_dir} already exists.")
-        elif os.path.exists(snapshot_dir) and overwrite:
-            # Clear out the snapshot directory
-            shutil.rmtree(snapshot_dir)
+
+        # write next to the snapshot directory and rename when complete, so that
+        # snapshot_dir never holds a partial save and is replaced only by a complete one
+        suffix = uuid4().hex[:8]
+        tmp_dir = f"{snapshot_dir}.{suffix}.tmp"
+        old_dir = f"{snapshot_dir}.{suffix}.old"
+        try:
+            os.makedirs(tmp_dir)
+            self.write_snapshot_files(tmp_dir)
+            if overwrite and os.path.exists(snapshot_dir):
+                os.rename(snapshot_dir, old_dir)
+            os.rename(tmp_dir, snapshot_dir)
+        except BaseException:
+            if os.path.exists(old_dir) and not os.path.exists(snapshot_dir):
+                os.rename(old_dir, snapshot_dir)
+            shutil.rmtree(tmp_dir, ignore_errors=True)
+            raise
+        if os.path.exists(old_dir):
             print(f"Clearing out snapshot directory {snapshot_dir}")
-        os.makedirs(snapshot_dir)
+            shutil.rmtree(old_dir, ignore_errors=True)
+        print(f"Wrote to snapshot directory {snapshot_dir}")
 
+    def write_snapshot_files(self, snapshot_dir: str):
+        """
+        write the files of a snapshot directory
+        args:
+            snapshot_dir (str) : existing directory to write to
+        """
         # Write the snapshots to a pickle file
         with open(os.path.join(snapshot_dir, "arrs.pkl"), "wb") as f:
             pickle.dump(self.snapshots, f)
@@ -961,8 +984,6 @@ class EulerSolver(ODE):
         with open(os.path.join(snapshot_dir, "timing.txt"), "w") as f:
             f.write(self.timer.report())
 
-        print(f"Wrote to snapshot directory {snapshot_dir}")
-
     def run(self, *args, **kwargs):
         """
         solve forward in time using a Runge-Kutta method whose order matches the
-- 
2.43.0


From 42d515e23fee4b1fa10b71dbc05e03060daa6cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:55 +0000
Subject: [PATCH 12/18] fix: make fvhoe.scripting importable

It imported a name that initial_conditions no longer has.
---
 fvhoe/scripting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fvhoe/scripting.py b/fvhoe/scripting.py
index 7630fd2..8d8e8d1 100644
--- a/fvhoe/scripting.py
+++ b/fvhoe/scripting.py
@@ -1,5 +1,5 @@
 from fvhoe.boundary_conditions import BoundaryCondition
-from fvhoe.initial_conditions import kelvin_helmholtz_2d
+from fvhoe.initial_conditions import InitialCondition, KelvinHelmholtz2D
 from fvhoe.solver import EulerSolver
 import matplotlib.pyplot as plt
 import numpy as np
@@ -10,7 +10,7 @@ def EulerSolver_wrapper(
     project_pref: str,
     snapshot_parent_dir: str,
     summary_parent_dir: str = None,
-    ic: callable = kelvin_helmholtz_2d,
+    ic: InitialCondition = KelvinHelmholtz2D(),
     bc: BoundaryCondition = BoundaryCondition(),
     T: float = 1.0,
     integrator: int = -1,
@@ -26,7 +26,7 @@ def EulerSolver_wrapper(
         snapshot_parent_dir (str) : snapshot parent directory
         summary_parent_dir (str) : summary parent directory. used for saving output from snapshot
             helper functions. if None, no snapshot_helper_function is used.
-        ic (callable) : valid EulerSolver initial condition function
+        ic (InitialCondition) : valid EulerSolver initial condition
         bc (BoundaryCondition) : valid EulerSolver boundary condition object
         T (float) : simulation time
         integrator (int) : integrator order. if -1, EulerSolver.run() is used.
-- 
2.43.0


From ca6a876dfc54787101b9d0aa487f63c1ddfe709f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:05 +0000
Subject: [PATCH 13/18] fix: keep the temporary names of a save short

A results directory whose name is close to the length limit could be created
directly, but not with the suffix of its temporary directory.
---
 fvhoe/solver.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/fvhoe/solver.py b/fvhoe/solver.py
index f469a2e..9baf798 100644
--- a/fvhoe/solver.py
+++ b/fvhoe/solver.py
@@ -906,9 +906,11 @@ class EulerSolver(ODE):
 
         # write next to the snapshot directory and rename when complete, so that
         # snapshot_dir never holds a partial save and is replaced only by a complete one
-        suffix = uuid4().hex[:8]
-        tmp_dir = f"{snapshot_dir}.{suffix}.tmp"
-        old_dir = f"{snapshot_dir}.{suffix}.old"
+        # (names are cut so that they are valid whenever that of snapshot_dir is)
+        parent_dir, name = os.path.split(snapshot_dir)
+        unique_path = os.path.join(parent_dir, f"{name[:50]}.{uuid4().hex[:8]}")
+        tmp_dir = unique_path + ".tmp"
+        old_dir = unique_path + ".old"
         try:
             os.makedirs(tmp_dir)
             self.write_snapshot_files(tmp_dir)
-- 
2.43.0


From b34294ccdfb5c3d0f809ec5b711ea864d6ba8189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:14 +0000
Subject: [PATCH 14/18] fix: raise on a time-step size that does not advance
 time

A positive step size too small to change t repeated the same time forever.
---
 fvhoe/ode.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/fvhoe/ode.py b/fvhoe/ode.py
index 0729edb..ec1325b 100644
--- a/fvhoe/ode.py
+++ b/fvhoe/ode.py
@@ -193,14 +193,15 @@ class ODE(ABC):
         integrate helper function
         """
         dt, unext = self.stepper(self.t, self.am("u"), target_time=target_time)
-        if not 0 < dt < np.inf:
-            raise RuntimeError(f"Invalid time-step size {dt} at t={self.t}")
-        self.am("u")[...] = unext
         # a step cut to reach the target lands on it, whatever t + dt rounds to
         if target_time is not None and dt == target_time - self.t:
-            self.t = float(target_time)
+            tnext = float(target_time)
         else:
-            self.t += dt
+            tnext = self.t + dt
+        if not self.t < tnext < np.inf:
+            raise RuntimeError(f"Invalid time-step size {dt} at t={self.t}")
+        self.am("u")[...] = unext
+        self.t = tnext
         self.timestamps.append(self.t)
         self.step_count += 1
         self.step_helper_function()
-- 
2.43.0


From 5e9653ab293b724d96f5f6663c4eb3f0fd14d836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:49 +0000
Subject: [PATCH 15/18] fix: pad troubled cells across periodic boundaries in
 1D and 2D

The slices of the dimensions that are not used were empty, so that nothing was
padded, and z raised an error in xz and yz problems.
---
 fvhoe/slope_limiting.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/fvhoe/slope_limiting.py b/fvhoe/slope_limiting.py
index d2c11b7..651dbd0 100644
--- a/fvhoe/slope_limiting.py
+++ b/fvhoe/slope_limiting.py
@@ -294,15 +294,16 @@ def broadcast_to_troubled_interfaces(
         ]
         alloc_trouble[tuple(slices)] = trouble
         # apply periodic boundary conditions
+        inner_x, inner_y, inner_z = slices
         if periodic_x and xdim:
-            alloc_trouble[:2, 2:-2, 2:-2] = trouble[-2:, :, :]
-            alloc_trouble[-2:, 2:-2, 2:-2] = trouble[:2, :, :]
+            alloc_trouble[:2, inner_y, inner_z] = trouble[-2:, :, :]
+            alloc_trouble[-2:, inner_y, inner_z] = trouble[:2, :, :]
         if periodic_y and ydim:
-            alloc_trouble[2:-2, :2, 2:-2] = trouble[:, -2:, :]
-            alloc_trouble[2:-2, -2:, 2:-2] = trouble[:, :2, :]
+            alloc_trouble[inner_x, :2, inner_z] = trouble[:, -2:, :]
+            alloc_trouble[inner_x, -2:, inner_z] = trouble[:, :2, :]
         if periodic_z and zdim:
-            alloc_trouble[2:-2, 2:-2, :2] = trouble[2:-2, 2:-2, -2:]
-            alloc_trouble[2:-2, 2:-2, -2:] = trouble[2:-2, 2:-2, :2]
+            alloc_trouble[inner_x, inner_y, :2] = trouble[:, :, -2:]
+            alloc_trouble[inner_x, inner_y, -2:] = trouble[:, :, :2]
     # broadcast troubled cells to interfaces
     if convex:
         # convex broadcast
-- 
2.43.0


From 53661770626f3edf26c32346b4f7aac05a19eae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:48 +0000
Subject: [PATCH 16/18] fix: keep the troubles of an interrupted step out of
 snapshots

---
 fvhoe/solver.py | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/fvhoe/solver.py b/fvhoe/solver.py
index 9baf798..a6c49b1 100644
--- a/fvhoe/solver.py
+++ b/fvhoe/solver.py
@@ -414,6 +414,9 @@ class EulerSolver(ODE):
         self.am.add("mean trouble", np.zeros((5, nx, ny, nz)))
         self.am.add("mean NAD mag", np.zeros((5, nx, ny, nz)))
         self.am.add("mean PAD mag", np.zeros((5, nx, ny, nz)))
+        self.am.add("sum trouble", np.zeros((5, nx, ny, nz)))
+        self.am.add("sum NAD mag", np.zeros((5, nx, ny, nz)))
+        self.am.add("sum PAD mag", np.zeros((5, nx, ny, nz)))
 
         # fluxes
         self.am.add("F", np.empty((nvars, nx + 1, ny, nz)))
@@ -807,29 +810,24 @@ class EulerSolver(ODE):
             PAD_violation_magnitude (array_like) : array of PAD violation magnitudes
             reset (bool) : reset the trouble counter. if true, ignores all other arguments
         """
+        # sums are kept apart so that an interrupted step leaves the means alone
         if reset and self.trouble_counter > 0:
-            self.am("mean trouble")[...] = (
-                self.am("mean trouble") / self.trouble_counter
-            )
-            self.am("mean NAD mag")[...] = (
-                self.am("mean NAD mag") / self.trouble_counter
-            )
-            self.am("mean PAD mag")[...] = (
-                self.am("mean PAD mag") / self.trouble_counter
-            )
+            self.am("mean trouble")[...] = self.am("sum trouble") / self.trouble_counter
+            self.am("mean NAD mag")[...] = self.am("sum NAD mag") / self.trouble_counter
+            self.am("mean PAD mag")[...] = self.am("sum PAD mag") / self.trouble_counter
             self.trouble_counter = 0
             return
         if self.trouble_counter == 0:
-            self.am("mean trouble")[...] = trouble
-            self.am("mean NAD mag")[...] = NAD_violation_magnitude
-            self.am("mean PAD mag")[...] = PAD_violation_magnitude
+            self.am("sum trouble")[...] = trouble
+            self.am("sum NAD mag")[...] = NAD_violation_magnitude
+            self.am("sum PAD mag")[...] = PAD_violation_magnitude
         else:
-            self.am("mean trouble")[...] = self.am("mean trouble") + trouble
-            self.am("mean NAD mag")[...] = (
-                self.am("mean NAD mag") + NAD_violation_magnitude
+            self.am("sum trouble")[...] = self.am("sum trouble") + trouble
+            self.am("sum NAD mag")[...] = (
+                self.am("sum NAD mag") + NAD_violation_magnitude
             )
-            self.am("mean PAD mag")[...] = (
-                self.am("mean PAD mag") + PAD_violation_magnitude
+            self.am("sum PAD mag")[...] = (
+                self.am("sum PAD mag") + PAD_violation_magnitude
             )
         self.trouble_counter += 1
 
-- 
2.43.0


From 97b24b74a4d984b49b6a384e89f131279a29ebb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:40 +0000
Subject: [PATCH 17/18] fix: flush saved results to disk before reporting them
 as saved

---
 fvhoe/solver.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/fvhoe/solver.py b/fvhoe/solver.py
index a6c49b1..70aaeaa 100644
--- a/fvhoe/solver.py
+++ b/fvhoe/solver.py
@@ -39,6 +39,24 @@ except Exception:
     CUPY_AVAILABLE = False
 
 
+def flush_to_disk(file) -> None:
+    """
+    wait until what was written to a file, or the entries of a directory, would survive
+    a power failure
+    args:
+        file (Union[IO, str]) : file open for writing, or path of a directory
+    """
+    if not isinstance(file, str):
+        file.flush()
+        os.fsync(file.fileno())
+    elif os.name == "posix":
+        fd = os.open(file, os.O_RDONLY)
+        try:
+            os.fsync(fd)
+        finally:
+            os.close(fd)
+
+
 class EulerSolver(ODE):
     def __init__(
         self,
@@ -912,9 +930,11 @@ class EulerSolver(ODE):
         try:
             os.makedirs(tmp_dir)
             self.write_snapshot_files(tmp_dir)
+            flush_to_disk(tmp_dir)
             if overwrite and os.path.exists(snapshot_dir):
                 os.rename(snapshot_dir, old_dir)
             os.rename(tmp_dir, snapshot_dir)
+            flush_to_disk(parent_dir or os.curdir)
         except BaseException:
             if os.path.exists(old_dir) and not os.path.exists(snapshot_dir):
                 os.rename(old_dir, snapshot_dir)
@@ -934,6 +954,7 @@ class EulerSolver(ODE):
         # Write the snapshots to a pickle file
         with open(os.path.join(snapshot_dir, "arrs.pkl"), "wb") as f:
             pickle.dump(self.snapshots, f)
+            flush_to_disk(f)
 
         # Save the rest of the attributes (excluding functions, etc.) as a json
         attrs_to_save = {}
@@ -979,10 +1000,12 @@ class EulerSolver(ODE):
                 indent=4,
                 default=lambda v: v.item() if isinstance(v, np.generic) else repr(v),
             )
+            flush_to_disk(f)
 
         # generate timing report
         with open(os.path.join(snapshot_dir, "timing.txt"), "w") as f:
             f.write(self.timer.report())
+            flush_to_disk(f)
 
     def run(self, *args, **kwargs):
         """
-- 
2.43.0


From 5031f99c5eca30a6284bcc485e7a0ec0384e9b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:40 +0000
Subject: [PATCH 18/18] fix: keep a failing mean of troubles from spoiling a
 completed step

---
 fvhoe/solver.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/fvhoe/solver.py b/fvhoe/solver.py
index 70aaeaa..8eced22 100644
--- a/fvhoe/solver.py
+++ b/fvhoe/solver.py
@@ -435,6 +435,9 @@ class EulerSolver(ODE):
         self.am.add("sum trouble", np.zeros((5, nx, ny, nz)))
         self.am.add("sum NAD mag", np.zeros((5, nx, ny, nz)))
         self.am.add("sum PAD mag", np.zeros((5, nx, ny, nz)))
+        self.am.add("next mean trouble", np.zeros((5, nx, ny, nz)))
+        self.am.add("next mean NAD mag", np.zeros((5, nx, ny, nz)))
+        self.am.add("next mean PAD mag", np.zeros((5, nx, ny, nz)))
 
         # fluxes
         self.am.add("F", np.empty((nvars, nx + 1, ny, nz)))
@@ -828,24 +831,21 @@ class EulerSolver(ODE):
             PAD_violation_magnitude (array_like) : array of PAD violation magnitudes
             reset (bool) : reset the trouble counter. if true, ignores all other arguments
         """
-        # sums are kept apart so that an interrupted step leaves the means alone
+        # the means of the last step are replaced once the next one is complete, by copying
+        # alone, so that neither an interrupted step nor a failing mean can spoil them
         if reset and self.trouble_counter > 0:
-            self.am("mean trouble")[...] = self.am("sum trouble") / self.trouble_counter
-            self.am("mean NAD mag")[...] = self.am("sum NAD mag") / self.trouble_counter
-            self.am("mean PAD mag")[...] = self.am("sum PAD mag") / self.trouble_counter
+            for name in ("trouble", "NAD mag", "PAD mag"):
+                self.am(f"mean {name}")[...] = self.am(f"next mean {name}")
             self.trouble_counter = 0
             return
-        if self.trouble_counter == 0:
-            self.am("sum trouble")[...] = trouble
-            self.am("sum NAD mag")[...] = NAD_violation_magnitude
-            self.am("sum PAD mag")[...] = PAD_violation_magnitude
-        else:
-            self.am("sum trouble")[...] = self.am("sum trouble") + trouble
-            self.am("sum NAD mag")[...] = (
-                self.am("sum NAD mag") + NAD_violation_magnitude
-            )
-            self.am("sum PAD mag")[...] = (
-                self.am("sum PAD mag") + PAD_violation_magnitude
+        values = (trouble, NAD_violation_magnitude, PAD_violation_magnitude)
+        for name, value in zip(("trouble", "NAD mag", "PAD mag"), values):
+            if self.trouble_counter == 0:
+                self.am(f"sum {name}")[...] = value
+            else:
+                self.am(f"sum {name}")[...] = self.am(f"sum {name}") + value
+            self.am(f"next mean {name}")[...] = self.am(f"sum {name}") / (
+                self.trouble_counter + 1
             )
         self.trouble_counter += 1
 
-- 
2.43.0

