From ef382bd1d55aa54aa8147e1cd79b759b18449e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:28 +0000
Subject: [PATCH 001/105] fix: exec_async_servers could stop before the end
 (job not yet registered)

---
 src/fluidimage/executors/exec_async_servers.py | 4 ++++
 src/fluidimage/executors/servers.py            | 7 +++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/executors/exec_async_servers.py b/src/fluidimage/executors/exec_async_servers.py
index a5cbb78..cbb4bc7 100644
--- a/src/fluidimage/executors/exec_async_servers.py
+++ b/src/fluidimage/executors/exec_async_servers.py
@@ -197,6 +197,10 @@ class ExecutorAsyncServers(ExecutorAsync):
             worker.is_available = True
             return
 
+        # has to be done here (and not in the thread), before any await. Otherwise
+        # this item could be in no queue and in no busy worker.
+        worker.register_job()
+
         def run_process():
             # create a communication channel
             parent_conn, child_conn = worker.new_pipe()
diff --git a/src/fluidimage/executors/servers.py b/src/fluidimage/executors/servers.py
index 637cc13..37b9e9b 100644
--- a/src/fluidimage/executors/servers.py
+++ b/src/fluidimage/executors/servers.py
@@ -86,6 +86,11 @@ class Worker:
         self.is_available = True
         self.is_unoccupied = True
 
+    def register_job(self):
+        """Take into account a job which is going to be sent to the server"""
+        self.is_unoccupied = False
+        self.nb_items_to_process += 1
+
     def well_done_thanks(self):
         self.nb_items_to_process -= 1
         if self.nb_items_to_process == 0:
@@ -97,8 +102,6 @@ class Worker:
 
 class WorkerMultiprocessing(Worker):
     def send_job(self, obj):
-        self.is_unoccupied = False
-        self.nb_items_to_process += 1
         self.send(obj)
 
     def send(self, obj):
-- 
2.43.0


From 5e1b4c873b80b4b4b48c1df307c90f487b523a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:02 +0000
Subject: [PATCH 002/105] fix: async executors could run more than
 nb_max_workers works at once

---
 src/fluidimage/executors/exec_async.py            | 10 ++++++----
 src/fluidimage/executors/exec_async_multiproc.py  |  2 --
 src/fluidimage/executors/exec_async_sequential.py |  2 --
 3 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/fluidimage/executors/exec_async.py b/src/fluidimage/executors/exec_async.py
index 2de8281..d314dc1 100644
--- a/src/fluidimage/executors/exec_async.py
+++ b/src/fluidimage/executors/exec_async.py
@@ -179,6 +179,9 @@ class ExecutorAsync(ExecutorBase):
                     if self._has_to_stop:
                         return
                     await trio.sleep(self.sleep_time)
+                # has to be done here (and not when the new task really starts)
+                # to never overrun nb_max_workers and nb_items_queue_max
+                self.nb_working_workers_io += 1
                 self.nursery.start_soon(self.async_run_work_io, work)
                 await trio.sleep(self.sleep_time)
 
@@ -200,6 +203,9 @@ class ExecutorAsync(ExecutorBase):
                     if self._has_to_stop:
                         return
                     await trio.sleep(self.sleep_time)
+                # has to be done here (and not when the new task really starts)
+                # to never overrun nb_max_workers and nb_items_queue_max
+                self.nb_working_workers_cpu += 1
                 self.nursery.start_soon(self.async_run_work_cpu, work)
                 await trio.sleep(self.sleep_time)
 
@@ -219,8 +225,6 @@ class ExecutorAsync(ExecutorBase):
           A work from the topology
 
         """
-        self.nb_working_workers_io += 1
-
         try:
             key, obj = work.input_queue.pop_first_item()
         except KeyError:
@@ -272,8 +276,6 @@ class ExecutorAsync(ExecutorBase):
           A work from the topology
 
         """
-        self.nb_working_workers_cpu += 1
-
         try:
             key, obj = work.input_queue.pop_first_item()
         except KeyError:
diff --git a/src/fluidimage/executors/exec_async_multiproc.py b/src/fluidimage/executors/exec_async_multiproc.py
index c893892..9233217 100644
--- a/src/fluidimage/executors/exec_async_multiproc.py
+++ b/src/fluidimage/executors/exec_async_multiproc.py
@@ -49,8 +49,6 @@ class ExecutorAsyncMultiproc(ExecutorAsync):
           A work from the topology
 
         """
-        self.nb_working_workers_cpu += 1
-
         try:
             key, obj = work.input_queue.pop_first_item()
         except KeyError:
diff --git a/src/fluidimage/executors/exec_async_sequential.py b/src/fluidimage/executors/exec_async_sequential.py
index 3cb4ce2..d457385 100644
--- a/src/fluidimage/executors/exec_async_sequential.py
+++ b/src/fluidimage/executors/exec_async_sequential.py
@@ -37,8 +37,6 @@ class ExecutorAsyncSequential(ExecutorAsync):
           The value of the dictionary item to be process
 
         """
-        self.nb_working_workers_cpu += 1
-
         try:
             key, obj = work.input_queue.pop_first_item()
         except KeyError:
-- 
2.43.0


From 89ba8a4ad943c2575a4ee7bfe361d36fe1bc26fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:41 +0000
Subject: [PATCH 003/105] fix: exec_sequential, no AttributeError when there is
 nothing to compute

---
 src/fluidimage/executors/exec_sequential.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fluidimage/executors/exec_sequential.py b/src/fluidimage/executors/exec_sequential.py
index d036b58..eac54d2 100644
--- a/src/fluidimage/executors/exec_sequential.py
+++ b/src/fluidimage/executors/exec_sequential.py
@@ -21,7 +21,8 @@ class ExecutorSequential(ExecutorBase):
         self.exec_one_shot_works()
         self._run_works()
         self._finalize_compute()
-        if hasattr(self.topology, "results"):
+        # num_expected_results == 0: nothing to do, the job has not been saved
+        if hasattr(self.topology, "results") and self.num_expected_results != 0:
             self._save_results_names()
 
     def _run_works(self):
-- 
2.43.0


From 0cc8d79c00f1dce09609c3b10acb7484a367eae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:04 +0000
Subject: [PATCH 004/105] fix: SplitterFromImages with one value for the first
 index (IndexError)

---
 src/fluidimage/topologies/splitters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fluidimage/topologies/splitters.py b/src/fluidimage/topologies/splitters.py
index c46bac8..8b57021 100644
--- a/src/fluidimage/topologies/splitters.py
+++ b/src/fluidimage/topologies/splitters.py
@@ -251,7 +251,9 @@ class SplitterFromImages(SplitterCompleteAware):
             self.num_expected_results = len(self.serie)
             slicing_tuples = self.serie.get_slicing_tuples()
             s0 = slicing_tuples[0]
-            self.ranges = split_range(s0[0], s0[1], s0[2], self.num_processes)
+            # the step can be omitted (for example for str_subset = "1, :")
+            step0 = s0[2] if len(s0) > 2 else 1
+            self.ranges = split_range(s0[0], s0[1], step0, self.num_processes)
 
             if len(slicing_tuples) == 1:
                 self.slicing_str_post = ""
-- 
2.43.0


From 618ca4169cf7329a0f3ad164a5aa52e77c02bf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:53 +0000
Subject: [PATCH 005/105] fix: computations started in the same second by the
 same process (wrong job directory)

---
 src/fluidimage/executors/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/executors/base.py b/src/fluidimage/executors/base.py
index 02d84a2..80b74b2 100644
--- a/src/fluidimage/executors/base.py
+++ b/src/fluidimage/executors/base.py
@@ -93,7 +93,7 @@ class ExecutorBase(ABC):
             while path_job_data.exists():
                 index += 1
                 unique_postfix = unique_postfix0 + str(index)
-                path_job_data = self.path_dir_result / f"log_{unique_postfix}"
+                path_job_data = self.path_dir_result / f"job_{unique_postfix}"
 
         self._unique_postfix = unique_postfix
         self.path_job_data = path_job_data
-- 
2.43.0


From 2256f2a0a2fde368b1466dd597a6b8741b65bc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:02 +0000
Subject: [PATCH 006/105] fix: FFTW operators used by several threads (wrong
 PIV results with async executors)

The buffers of the FFTW plans are shared by all threads using the same work
object (cpu bounded works are executed in threads by the trio executors).
---
 src/fluidimage/calcul/fft.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/fluidimage/calcul/fft.py b/src/fluidimage/calcul/fft.py
index 6261676..56e2190 100644
--- a/src/fluidimage/calcul/fft.py
+++ b/src/fluidimage/calcul/fft.py
@@ -27,6 +27,7 @@ that.
 """
 
 from abc import ABC, abstractmethod
+from threading import Lock
 
 import numpy as np
 import numpy.fft as np_fft
@@ -215,6 +216,9 @@ class FFTW2DReal2Complex(OperatorFFTBase):
     def __init__(self, nx, ny):
         super().__init__(nx, ny)
 
+        # one object can be used by several threads (works executed in
+        # parallel) and the plans read and write these arrays
+        self._lock_arrays = Lock()
         self.arrayX = pyfftw.empty_aligned(self.shapeX, self.type_real)
         self.arrayK = pyfftw.empty_aligned(self.shapeK, self.type_complex)
 
@@ -234,14 +238,16 @@ class FFTW2DReal2Complex(OperatorFFTBase):
         )
 
     def fft(self, field):
-        self.arrayX[:] = field
-        self.fftplan()
-        return self.arrayK.copy()
+        with self._lock_arrays:
+            self.arrayX[:] = field
+            self.fftplan()
+            return self.arrayK.copy()
 
     def ifft(self, field_fft):
-        self.arrayK[:] = field_fft
-        self.ifftplan(normalise_idft=False)
-        return self.arrayX.copy()
+        with self._lock_arrays:
+            self.arrayK[:] = field_fft
+            self.ifftplan(normalise_idft=False)
+            return self.arrayX.copy()
 
 
 class FFTW2DReal2ComplexFloat64(FFTW2DReal2Complex):
-- 
2.43.0


From af6fda148cb5eaac1e4864249fee92cf8358188e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:02 +0000
Subject: [PATCH 007/105] fix: race in the lazy initialization of the PIV works
 (threads)

---
 src/fluidimage/works/piv/singlepass.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fluidimage/works/piv/singlepass.py b/src/fluidimage/works/piv/singlepass.py
index 359a360..1b60238 100644
--- a/src/fluidimage/works/piv/singlepass.py
+++ b/src/fluidimage/works/piv/singlepass.py
@@ -137,8 +137,10 @@ class BaseWorkPIV(BaseWorkWithMask):
 
         ixvecs, iyvecs = np.meshgrid(ixvecs, iyvecs)
 
-        self.ixvecs_grid = ixvecs.flatten()
+        # ixvecs_grid has to be set last since it is used to know if the object
+        # is prepared (possibly from another thread)
         self.iyvecs_grid = iyvecs.flatten()
+        self.ixvecs_grid = ixvecs.flatten()
 
     def calcul(self, couple):
         """Calcul the PIV (one pass) from a couple of images."""
-- 
2.43.0


From f5af2637a252b4ccea2db1e12793c66d2278320f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:02 +0000
Subject: [PATCH 008/105] fix: surface tracking with crop_edge, do not modify
 the reference

---
 src/fluidimage/works/surface_tracking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/works/surface_tracking.py b/src/fluidimage/works/surface_tracking.py
index 51a8620..b5d8554 100644
--- a/src/fluidimage/works/surface_tracking.py
+++ b/src/fluidimage/works/surface_tracking.py
@@ -356,7 +356,7 @@ class WorkSurfaceTracking(BaseWork):
         if x_min <= self.xmin:
             x_min = self.xmin
             print("INFO:x_min adjusted")
-        calc_frame = self.ref
+        calc_frame = self.ref.copy()
         calc_frame[:, x_min - self.xmin : -(self.xmax - x_max)] = frame[
             self.ymin : self.ymax, x_min:x_max
         ]
-- 
2.43.0


From bc8c7bc5f4cf11fc9a9be461183aa6876218a7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:13 +0000
Subject: [PATCH 009/105] fix: params.preproc.im2im was not taken into account
 by TopologyBOS (TypeError)

The work "compute bos" consumed the queue of the raw images and the im2im
function was called with a wrong argument.
---
 src/fluidimage/topologies/bos.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/fluidimage/topologies/bos.py b/src/fluidimage/topologies/bos.py
index 6caacba..55d030e 100644
--- a/src/fluidimage/topologies/bos.py
+++ b/src/fluidimage/topologies/bos.py
@@ -127,23 +127,25 @@ class TopologyBOS(TopologyBaseFromImages):
         )
 
         if params.preproc.im2im is not None:
-            im2im_func = image2image.get_im2im_function_from_params(
+            self._im2im_func = image2image.get_im2im_function_from_params(
                 params.preproc
             )
+            self.main_work.image_reference, _ = self._im2im(
+                (self.main_work.image_reference, self.main_work.name_reference)
+            )
 
             self.add_work(
                 "image2image",
-                func_or_cls=im2im_func,
+                func_or_cls=self._im2im,
                 input_queue=queue_arrays,
                 output_queue=queue_arrays1,
-                kind="eat key value",
             )
 
         self.add_work(
             "compute bos",
             func_or_cls=self.calcul,
             params_cls=params,
-            input_queue=queue_arrays,
+            input_queue=queue_arrays1,
             output_queue=queue_bos,
         )
 
@@ -160,6 +162,11 @@ class TopologyBOS(TopologyBaseFromImages):
         ret = obj.save(self.path_dir_result, kind="bos")
         self.results.append(ret)
 
+    def _im2im(self, tuple_image_name):
+        """Apply the preprocessing function to one image"""
+        image, name = tuple_image_name
+        return self._im2im_func((name, image)), name
+
     def calcul(self, tuple_image_path):
         """Compute a BOS field"""
         return self.main_work.calcul(tuple_image_path)
-- 
2.43.0


From 6dba2c69b38536c04b9d98b82a7ae58de817f49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:35 +0000
Subject: [PATCH 010/105] fix: partial result files left by an interruption
 were considered as results by complete

Results are now saved in a temporary file moved at the end of the saving.
---
 src/fluidimage/data_objects/piv.py            | 65 ++++++++++---------
 src/fluidimage/data_objects/preproc.py        | 25 +++----
 src/fluidimage/topologies/image2image.py      |  5 +-
 src/fluidimage/topologies/mean.py             |  5 +-
 src/fluidimage/topologies/surface_tracking.py |  5 +-
 src/fluidimage/util/__init__.py               |  2 +
 src/fluidimage/util/util.py                   | 20 ++++++
 7 files changed, 78 insertions(+), 49 deletions(-)

diff --git a/src/fluidimage/data_objects/piv.py b/src/fluidimage/data_objects/piv.py
index 34658f7..a350e47 100644
--- a/src/fluidimage/data_objects/piv.py
+++ b/src/fluidimage/data_objects/piv.py
@@ -29,7 +29,7 @@ from fluidimage import ParamContainer
 from fluidimage import __version__ as fluidimage_version
 from fluidimage import imread
 from fluidimage._version import hg_rev
-from fluidimage.util import safe_eval
+from fluidimage.util import atomic_saving, safe_eval
 
 from .display_piv import DisplayPIV
 
@@ -368,14 +368,15 @@ class HeavyPIVResults(DataObject):
         else:
             path_file = name
 
-        if out_format == "uvmat":
-            with h5netcdf.File(path_file, "w") as file:
-                self._save_as_uvmat(file)
-        else:
-            with h5py.File(path_file, "w") as file:
-                file.attrs["class_name"] = "HeavyPIVResults"
-                file.attrs["module_name"] = "fluidimage.data_objects.piv"
-                self._save_in_hdf5_object(file)
+        with atomic_saving(path_file) as path_tmp:
+            if out_format == "uvmat":
+                with h5netcdf.File(path_tmp, "w") as file:
+                    self._save_as_uvmat(file)
+            else:
+                with h5py.File(path_tmp, "w") as file:
+                    file.attrs["class_name"] = "HeavyPIVResults"
+                    file.attrs["module_name"] = "fluidimage.data_objects.piv"
+                    self._save_in_hdf5_object(file)
 
         return path_file
 
@@ -595,24 +596,25 @@ class MultipassPIVResults(DataObject):
         else:
             path_file = name
 
-        if out_format == "uvmat":
-            with h5netcdf.File(path_file, "w") as file:
-                self._save_as_uvmat(file)
-        else:
-            with h5py.File(path_file, "w") as file:
-                file.attrs["class_name"] = "MultipassPIVResults"
-                file.attrs["module_name"] = "fluidimage.data_objects.piv"
-                file.attrs["Conventions"] = (
-                    "fluidimage.data_objects.piv.MultipassPIVResults v1"
-                )
+        with atomic_saving(path_file) as path_tmp:
+            if out_format == "uvmat":
+                with h5netcdf.File(path_tmp, "w") as file:
+                    self._save_as_uvmat(file)
+            else:
+                with h5py.File(path_tmp, "w") as file:
+                    file.attrs["class_name"] = "MultipassPIVResults"
+                    file.attrs["module_name"] = "fluidimage.data_objects.piv"
+                    file.attrs["Conventions"] = (
+                        "fluidimage.data_objects.piv.MultipassPIVResults v1"
+                    )
 
-                file.attrs["nb_passes"] = len(self.passes)
+                    file.attrs["nb_passes"] = len(self.passes)
 
-                file.attrs["fluidimage_version"] = fluidimage_version
-                file.attrs["fluidimage_hg_rev"] = hg_rev
+                    file.attrs["fluidimage_version"] = fluidimage_version
+                    file.attrs["fluidimage_hg_rev"] = hg_rev
 
-                for i, r in enumerate(self.passes):
-                    r._save_in_hdf5_object(file, tag=f"piv{i}")
+                    for i, r in enumerate(self.passes):
+                        r._save_in_hdf5_object(file, tag=f"piv{i}")
 
         return path_file
 
@@ -841,14 +843,15 @@ class LightPIVResults(DataObject):
         else:
             path_file = name
 
-        with h5py.File(path_file, "w") as file:
-            file.attrs["class_name"] = "LightPIVResults"
-            file.attrs["module_name"] = "fluidimage.data_objects.piv"
-            file.attrs["Conventions"] = (
-                "fluidimage.data_objects.piv.LightPIVResults v1"
-            )
+        with atomic_saving(path_file) as path_tmp:
+            with h5py.File(path_tmp, "w") as file:
+                file.attrs["class_name"] = "LightPIVResults"
+                file.attrs["module_name"] = "fluidimage.data_objects.piv"
+                file.attrs["Conventions"] = (
+                    "fluidimage.data_objects.piv.LightPIVResults v1"
+                )
 
-            self._save_in_hdf5_object(file, tag="piv")
+                self._save_in_hdf5_object(file, tag="piv")
 
         return self
 
diff --git a/src/fluidimage/data_objects/preproc.py b/src/fluidimage/data_objects/preproc.py
index a4cf94f..8d468b8 100644
--- a/src/fluidimage/data_objects/preproc.py
+++ b/src/fluidimage/data_objects/preproc.py
@@ -17,7 +17,7 @@ import os
 import h5py
 
 from fluiddyn.util.serieofarrays import SerieOfArraysFromFiles
-from fluidimage.util import imsave, imsave_h5
+from fluidimage.util import atomic_saving, imsave, imsave_h5
 
 from .piv import ArrayCouple, LightPIVResults
 
@@ -155,17 +155,18 @@ class PreprocResults(LightPIVResults):
         out_format = self.params.saving.format
         for k, v in self.data.items():
             path_file = os.path.join(path, k)
-            if out_format == "img":
-                imsave(path_file, v, as_int=True)
-            elif out_format == "h5":
-                attrs = {
-                    "class_name": "PreprocResults",
-                    "module_name": self.__module__,
-                }
-                imsave_h5(path_file, v, self.params, attrs, as_int=True)
-            else:
-                # Try to save in formats supported by PIL.Image
-                imsave(path_file, v, format=out_format, as_int=True)
+            with atomic_saving(path_file) as path_tmp:
+                if out_format == "img":
+                    imsave(path_tmp, v, as_int=True)
+                elif out_format == "h5":
+                    attrs = {
+                        "class_name": "PreprocResults",
+                        "module_name": self.__module__,
+                    }
+                    imsave_h5(path_tmp, v, self.params, attrs, as_int=True)
+                else:
+                    # Try to save in formats supported by PIL.Image
+                    imsave(path_tmp, v, format=out_format, as_int=True)
 
         self.clear_data()
         return path_file
diff --git a/src/fluidimage/topologies/image2image.py b/src/fluidimage/topologies/image2image.py
index 9837ffe..469e4df 100644
--- a/src/fluidimage/topologies/image2image.py
+++ b/src/fluidimage/topologies/image2image.py
@@ -13,7 +13,7 @@ from pathlib import Path
 from fluiddyn.io.image import imsave
 from fluidimage import ParamContainer
 from fluidimage.topologies.splitters import SplitterFromImages
-from fluidimage.util import imread
+from fluidimage.util import atomic_saving, imread
 from fluidimage.works.image2image import WorkImage2Image
 
 from .base import TopologyBaseFromImages
@@ -125,7 +125,8 @@ class TopologyImage2Image(TopologyBaseFromImages):
         path, image = tuple_path_image
         name_file = Path(path).name
         path_out = self.path_dir_result / name_file
-        imsave(path_out, image)
+        with atomic_saving(path_out) as path_tmp:
+            imsave(path_tmp, image)
         self.results.append(name_file)
 
 
diff --git a/src/fluidimage/topologies/mean.py b/src/fluidimage/topologies/mean.py
index 9cdbba0..cd977f8 100644
--- a/src/fluidimage/topologies/mean.py
+++ b/src/fluidimage/topologies/mean.py
@@ -19,7 +19,7 @@ from fluiddyn.util.serieofarrays import SerieOfArraysFromFiles
 from fluidimage import ParamContainer
 from fluidimage.topologies.base import TopologyBaseFromImages
 from fluidimage.topologies.splitters import SplitterFromImages
-from fluidimage.util import imread
+from fluidimage.util import atomic_saving, imread
 from fluidimage.works import BaseWorkFromImage
 
 # from transonic import boost, Array
@@ -182,7 +182,8 @@ class TopologyMeanImage(TopologyBaseFromImages):
         )
 
         im = Image.fromarray(self.result)
-        im.save(self.path_result, "PNG")
+        with atomic_saving(self.path_result) as path_tmp:
+            im.save(path_tmp, "PNG")
         im.close()
 
         for path_tmp_file in path_tmp_files:
diff --git a/src/fluidimage/topologies/surface_tracking.py b/src/fluidimage/topologies/surface_tracking.py
index ac85126..8243beb 100644
--- a/src/fluidimage/topologies/surface_tracking.py
+++ b/src/fluidimage/topologies/surface_tracking.py
@@ -21,7 +21,7 @@ from pathlib import Path
 from fluiddyn.io.image import imsave_h5
 from fluidimage import ParamContainer, SerieOfArraysFromFiles, SeriesOfArrays
 from fluidimage.topologies import TopologyBase
-from fluidimage.util import imread, logger
+from fluidimage.util import atomic_saving, imread, logger
 from fluidimage.works import image2image
 from fluidimage.works.surface_tracking import WorkSurfaceTracking
 
@@ -258,7 +258,8 @@ Parameters indicating the input image set.
         path, image = tuple_path_image
         name_file = Path(path).name
         path_out = self.path_dir_result / name_file
-        imsave_h5(path_out, image, splitext=False)
+        with atomic_saving(path_out) as path_tmp:
+            imsave_h5(path_tmp, image, splitext=False)
 
     def fill_queue_paths(self, input_queue, output_queues):
         assert input_queue is None
diff --git a/src/fluidimage/util/__init__.py b/src/fluidimage/util/__init__.py
index 3bf07a1..d3affcc 100644
--- a/src/fluidimage/util/__init__.py
+++ b/src/fluidimage/util/__init__.py
@@ -21,6 +21,7 @@ from .log import (
     reset_logger,
 )
 from .util import (
+    atomic_saving,
     cstring,
     format_time_in_seconds,
     get_txt_memory_usage,
@@ -32,6 +33,7 @@ from .util import (
 )
 
 __all__ = [
+    "atomic_saving",
     "imread",
     "imsave",
     "imsave_h5",
diff --git a/src/fluidimage/util/util.py b/src/fluidimage/util/util.py
index a2cc515..dab60c5 100644
--- a/src/fluidimage/util/util.py
+++ b/src/fluidimage/util/util.py
@@ -6,6 +6,8 @@ Provides:
 
 .. autofunction:: imread
 
+.. autofunction:: atomic_saving
+
 .. autofunction:: print_memory_usage
 
 .. autofunction:: cstring
@@ -22,7 +24,9 @@ Provides:
 
 """
 
+from contextlib import contextmanager
 from pathlib import Path
+from tempfile import TemporaryDirectory
 
 import psutil
 from IPython.lib.pretty import pretty
@@ -59,6 +63,22 @@ def imread(path):
     return array
 
 
+@contextmanager
+def atomic_saving(path):
+    """Context manager to save a file without ever exposing a partial file.
+
+    Yield the path of a temporary file with the same name. The file is moved to
+    its final location only when it is complete.
+
+    """
+    path = Path(path)
+    with TemporaryDirectory(prefix=".tmp_saving_", dir=path.parent) as path_dir:
+        yield Path(path_dir) / path.name
+        # the extension can be modified during the saving
+        for path_saved in Path(path_dir).iterdir():
+            path_saved.replace(path.with_name(path_saved.name))
+
+
 def imsave(path, array, **kwargs):
     "tmp docstring"
     _imsave(path, array, **kwargs)
-- 
2.43.0


From f28a7c97a98a4153bf4b38bf064f96f882d408df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:37 +0000
Subject: [PATCH 011/105] fix: std streams not restored and lock file not
 removed after some computations

- multi executors with nothing to compute,
- computations stopped by an exception (for example with stop_if_error=True).
---
 src/fluidimage/executors/base.py                     | 8 +++++++-
 src/fluidimage/executors/exec_async_seq_for_multi.py | 3 +++
 src/fluidimage/topologies/base.py                    | 6 +++++-
 src/fluidimage/util/log.py                           | 2 +-
 4 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/fluidimage/executors/base.py b/src/fluidimage/executors/base.py
index 80b74b2..2542989 100644
--- a/src/fluidimage/executors/base.py
+++ b/src/fluidimage/executors/base.py
@@ -148,7 +148,7 @@ class ExecutorBase(ABC):
         sys.stderr = MultiFile([stderr, self._log_file])
 
         if logging_level:
-            for handler in logger.handlers:
+            for handler in list(logger.handlers):
                 logger.removeHandler(handler)
 
             from fluidimage import config_logging
@@ -298,6 +298,11 @@ class ExecutorBase(ABC):
         self._reset_std_as_default()
         self._release_lock()
 
+    def _finalize_after_error(self):
+        """Has to be called if `compute` raises an exception"""
+        self._reset_std_as_default()
+        self._release_lock()
+
     def log_in_file(self, *args, sep=" ", end="\n"):
         """Simple write in the log file (without print)"""
         self._log_file.write(sep.join(str(arg) for arg in args) + end)
@@ -486,6 +491,7 @@ class MultiExecutorBase(ExecutorBase):
 
         if self.num_expected_results == 0:
             print("Nothing to be computed")
+            self._reset_std_as_default()
             return
 
         self.log_paths = []
diff --git a/src/fluidimage/executors/exec_async_seq_for_multi.py b/src/fluidimage/executors/exec_async_seq_for_multi.py
index cc2704c..4b629a7 100644
--- a/src/fluidimage/executors/exec_async_seq_for_multi.py
+++ b/src/fluidimage/executors/exec_async_seq_for_multi.py
@@ -94,6 +94,9 @@ class ExecutorAsyncSeqForMulti(ExecutorAsyncSequential):
         if hasattr(self.topology, "results"):
             self._save_results_names()
 
+    def _release_lock(self):
+        """The lock file is managed by the main process"""
+
     async def _save_topology_results(self):
         while not self._has_to_stop:
             self._save_results_names()
diff --git a/src/fluidimage/topologies/base.py b/src/fluidimage/topologies/base.py
index 5e23548..7122678 100644
--- a/src/fluidimage/topologies/base.py
+++ b/src/fluidimage/topologies/base.py
@@ -396,7 +396,11 @@ class TopologyBase:
                 **kwargs_executor,
             )
 
-        self.executor.compute()
+        try:
+            self.executor.compute()
+        except BaseException:
+            self.executor._finalize_after_error()
+            raise
 
     def make_text_at_exit(self, time_since_start):
         """Make a text printed before exit."""
diff --git a/src/fluidimage/util/log.py b/src/fluidimage/util/log.py
index 87fa5b5..a35775b 100644
--- a/src/fluidimage/util/log.py
+++ b/src/fluidimage/util/log.py
@@ -28,7 +28,7 @@ def config_logging(level="info", name="fluidimage", file=None):
 
 def reset_logger():
     """Remove all handlers (files) linked to the fluidimage logger"""
-    for handler in logger.handlers:
+    for handler in list(logger.handlers):
         logger.removeHandler(handler)
 
 
-- 
2.43.0


From 91ddbf0288491e8af3107a5524de8e1164a6a433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:37 +0000
Subject: [PATCH 012/105] fix: topology.compute with an executor object
 (AttributeError)

---
 src/fluidimage/topologies/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fluidimage/topologies/base.py b/src/fluidimage/topologies/base.py
index 7122678..368231f 100644
--- a/src/fluidimage/topologies/base.py
+++ b/src/fluidimage/topologies/base.py
@@ -375,7 +375,9 @@ class TopologyBase:
             # "multi_exec_subproc" elsewhere
             executor = supported_multi_executors[0]
 
-        if not isinstance(executor, ExecutorBase):
+        if isinstance(executor, ExecutorBase):
+            self.executor = executor
+        else:
             if executor not in get_executor_names():
                 raise NotImplementedError(f"executor {executor} does not exist")
 
-- 
2.43.0


From fd723d7476242e38b3bc16a84f4ccab8d5977b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:15 +0000
Subject: [PATCH 013/105] fix: params.saving.how = "new_dir" and answers given
 for "ask"

- scattered results with multi_exec_subproc, TypeError with exec_async_servers
  and with params.saving.path given as a Path,
- computations launched simultaneously could use the same "new" directory,
- upper-case answers were accepted but then not taken into account.
---
 .../executors/multi_exec_subproc.py           |  5 +++-
 src/fluidimage/executors/servers.py           |  2 +-
 src/fluidimage/topologies/base.py             | 28 +++++++++++++------
 3 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/fluidimage/executors/multi_exec_subproc.py b/src/fluidimage/executors/multi_exec_subproc.py
index 75ad013..aad0177 100644
--- a/src/fluidimage/executors/multi_exec_subproc.py
+++ b/src/fluidimage/executors/multi_exec_subproc.py
@@ -62,8 +62,11 @@ class MultiExecutorSubproc(MultiExecutorBase):
 
         if hasattr(self.topology, "how_saving"):
             params.saving.how = self.topology.how_saving
+            if params.saving.how == "new_dir":
+                # the new directory already exists
+                params.saving.how = "recompute"
 
-        if hasattr(self.topology, ""):
+        if hasattr(self.topology, "path_dir_result"):
             params.saving.path = self.topology.path_dir_result
 
         self.splitter = splitter_cls(
diff --git a/src/fluidimage/executors/servers.py b/src/fluidimage/executors/servers.py
index 37b9e9b..c3280e6 100644
--- a/src/fluidimage/executors/servers.py
+++ b/src/fluidimage/executors/servers.py
@@ -186,7 +186,7 @@ class WorkerServerMultiprocessing(WorkerServer):
         except AttributeError:
             pass
         else:
-            if params.saving.how == "ask":
+            if params.saving.how in ("ask", "new_dir"):
                 params.saving.how = "complete"
 
         self.topology = topology_cls(params)
diff --git a/src/fluidimage/topologies/base.py b/src/fluidimage/topologies/base.py
index 368231f..4b1ef42 100644
--- a/src/fluidimage/topologies/base.py
+++ b/src/fluidimage/topologies/base.py
@@ -28,6 +28,7 @@ import os
 import sys
 from abc import ABC, abstractmethod
 from collections import OrderedDict
+from itertools import count
 from pathlib import Path
 from typing import Sequence, Union
 from warnings import warn
@@ -46,6 +47,19 @@ from ..executors import (
 how_values = ("ask", "new_dir", "complete", "recompute", "from_path_indices")
 
 
+def _make_new_dir(path):
+    """Make a new directory (not already existing)"""
+    path_new = Path(path)
+    for i in count():
+        try:
+            # atomic (several computations can be launched simultaneously)
+            path_new.mkdir()
+        except FileExistsError:
+            path_new = Path(str(path) + str(i))
+        else:
+            return path_new
+
+
 def prepare_path_dir_result(
     path_dir_input, path_saving, postfix_saving, how_saving
 ):
@@ -81,6 +95,7 @@ def prepare_path_dir_result(
                     "The answer should be in ['n', 'c', 'r', 's']\n"
                     "Please type your answer again...\n"
                 )
+            answer = answer.lower()
 
             if answer == "s":
                 print("Stopped by the user.")
@@ -93,14 +108,11 @@ def prepare_path_dir_result(
             elif answer == "r":
                 how = "recompute"
 
-        if how == "new_dir":
-            i = 0
-            while os.path.exists(path_dir_result + str(i)):
-                i += 1
-            path_dir_result += str(i)
-
-    path_dir_result = Path(path_dir_result)
-    path_dir_result.mkdir(exist_ok=True)
+    if how == "new_dir":
+        path_dir_result = _make_new_dir(path_dir_result)
+    else:
+        path_dir_result = Path(path_dir_result)
+        path_dir_result.mkdir(exist_ok=True)
     return path_dir_result, how
 
 
-- 
2.43.0


From d863c8e235dfdb5ef9fd5f8b1aaa249d4c2a1139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:02 +0000
Subject: [PATCH 014/105] fix: unreadable images with opencv (None instead of
 an exception, the whole computation crashed)

---
 src/fluidimage/util/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fluidimage/util/util.py b/src/fluidimage/util/util.py
index dab60c5..9ef43f5 100644
--- a/src/fluidimage/util/util.py
+++ b/src/fluidimage/util/util.py
@@ -60,6 +60,10 @@ def imread(path):
     except Exception as error:
         raise type(error)(path).with_traceback(error.__traceback__)
 
+    if array is None:
+        # opencv returns None for a file that cannot be read
+        raise OSError(f"Image {path} cannot be read")
+
     return array
 
 
-- 
2.43.0


From 7942a422cf68ae125be41ee6712b04fa398b616b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:08 +0000
Subject: [PATCH 015/105] fix: mean image, an unreadable image does not stop
 the computation

---
 src/fluidimage/topologies/mean.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fluidimage/topologies/mean.py b/src/fluidimage/topologies/mean.py
index cd977f8..dafc1a5 100644
--- a/src/fluidimage/topologies/mean.py
+++ b/src/fluidimage/topologies/mean.py
@@ -129,6 +129,9 @@ class TopologyMeanImage(TopologyBaseFromImages):
 
         while queue_arrays:
             name, arr = queue_arrays.pop_first_item()
+            if isinstance(arr, Exception):
+                # image that cannot be read (error already logged)
+                continue
             queue_tmp_arrays.append((arr.astype(np.uint32), 1))
 
         self.reduce_queue_tmp_arrays4(queue_tmp_arrays)
-- 
2.43.0


From 7795420b8b96f757e85fe1ccc7cf814880c94b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:03 +0000
Subject: [PATCH 016/105] fix: surface tracking, phase computed from truncated
 values for integer images

The frame was normalized inplace so that integer images were truncated to
0 and 1 and the array given by the caller was modified.
---
 src/fluidimage/works/surface_tracking.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fluidimage/works/surface_tracking.py b/src/fluidimage/works/surface_tracking.py
index b5d8554..0123569 100644
--- a/src/fluidimage/works/surface_tracking.py
+++ b/src/fluidimage/works/surface_tracking.py
@@ -442,7 +442,8 @@ class WorkSurfaceTracking(BaseWork):
         """
         if self.crop_edge is False:
             frame = frame[ymin:ymax, xmin:xmax]
-        frame1 = self.frame_normalize(frame).astype(float)
+        # copy: frame_normalize works inplace (and can't work with integers)
+        frame1 = self.frame_normalize(frame.astype(float))
         frame_filtered = self.rectify_frame(frame1, gain, filt)
         inversed_filt = np.fft.ifft2(frame_filtered)
         inversed_filt = inversed_filt[::red_factor, ::red_factor]
-- 
2.43.0


From d0164d2933cfbf167057823131684441a6d56038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:21 +0000
Subject: [PATCH 017/105] fix: order of the TPS subdomains for the loaded PIV
 results

---
 src/fluidimage/data_objects/piv.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/fluidimage/data_objects/piv.py b/src/fluidimage/data_objects/piv.py
index a350e47..11efc8b 100644
--- a/src/fluidimage/data_objects/piv.py
+++ b/src/fluidimage/data_objects/piv.py
@@ -499,13 +499,9 @@ class HeavyPIVResults(DataObject):
 
         if "deltaxs_tps" in g_piv.keys():
             g = g_piv["deltaxs_tps"]
-            self.deltaxs_tps = []
-            for arr in g.keys():
-                self.deltaxs_tps.append(g[arr][...])
+            self.deltaxs_tps = [g[f"subdom{i}"][...] for i in range(len(g))]
             g = g_piv["deltays_tps"]
-            self.deltays_tps = []
-            for arr in g.keys():
-                self.deltays_tps.append(g[arr][...])
+            self.deltays_tps = [g[f"subdom{i}"][...] for i in range(len(g))]
 
     def get_grid_pixel(self, index_pass):
         """Recompute 1d arrays containing the approximate positions of the vectors
-- 
2.43.0


From a0fd01f9634ce8bee5c5d9f9a1e16b35aa9b8f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:21 +0000
Subject: [PATCH 018/105] fix: MultipassPIVResults.make_light_result, y
 positions for a pass which is not the last one

---
 src/fluidimage/data_objects/piv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/data_objects/piv.py b/src/fluidimage/data_objects/piv.py
index 11efc8b..93a4c3e 100644
--- a/src/fluidimage/data_objects/piv.py
+++ b/src/fluidimage/data_objects/piv.py
@@ -723,7 +723,7 @@ class MultipassPIVResults(DataObject):
             deltaxs = piv.deltaxs_approx
             deltays = piv.deltays_approx
             ixvec = piv.ixvecs_approx
-            iyvec = piv.ixvecs_approx
+            iyvec = piv.iyvecs_approx
 
         if hasattr(self, "file_name"):
             file_name = self.file_name
-- 
2.43.0


From fd69d095446cced967859b94766cb44df0f191ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:21 +0000
Subject: [PATCH 019/105] fix: VectorFieldOnGrid.save for fields without z
 (loaded from PIV files)

---
 src/fluidimage/postproc/vector_field.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/postproc/vector_field.py b/src/fluidimage/postproc/vector_field.py
index 3ada5a3..993e538 100644
--- a/src/fluidimage/postproc/vector_field.py
+++ b/src/fluidimage/postproc/vector_field.py
@@ -185,7 +185,9 @@ class VectorFieldOnGrid:
             file.attrs["module_name"] = cls.__module__
 
             for attr_name in self._attr_saved_as_dataset:
-                file.create_dataset(attr_name, data=getattr(self, attr_name))
+                value = getattr(self, attr_name)
+                if value is not None:
+                    file.create_dataset(attr_name, data=value)
 
             for attr_name in self._attr_saved_as_attr:
                 file.attrs[attr_name] = getattr(self, attr_name)
@@ -251,7 +253,10 @@ class VectorFieldOnGrid:
             kwargs = {}
             with h5py.File(path, "r") as file:
                 for attr_name in cls._attr_saved_as_dataset:
-                    kwargs[attr_name] = file[attr_name][...]
+                    if attr_name in file:
+                        kwargs[attr_name] = file[attr_name][...]
+                    else:
+                        kwargs[attr_name] = None
                 for attr_name in cls._attr_saved_as_attr:
                     attr = file.attrs[attr_name]
                     if isinstance(attr, np.ndarray):
-- 
2.43.0


From d112a33c4d4053891264f9c659ae654fb97c475f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:02 +0000
Subject: [PATCH 020/105] fix: get_grid_pixel with images cropped by
 params.mask.strcrop

---
 src/fluidimage/postproc/piv.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fluidimage/postproc/piv.py b/src/fluidimage/postproc/piv.py
index 9d351f2..82e8b99 100644
--- a/src/fluidimage/postproc/piv.py
+++ b/src/fluidimage/postproc/piv.py
@@ -18,6 +18,7 @@
 import h5py
 
 from fluiddyn.util.paramcontainer import ParamContainer
+from fluidimage.data_objects.piv import get_slices_from_strcrop
 from fluidimage.works.piv.multipass import WorkPIV
 
 from .vector_field import ArrayOfVectorFieldsOnGrid, VectorFieldOnGrid
@@ -99,6 +100,13 @@ def get_grid_pixel(params, shape_images, index_pass=-1):
     params_default = WorkPIV.create_default_params()
     params_default._modif_from_other_params(params)
 
+    if params_default.mask.strcrop is not None:
+        # the positions are indices in the cropped images
+        slices = get_slices_from_strcrop(params_default.mask.strcrop)
+        shape_images = tuple(
+            len(range(n)[slice_]) for n, slice_ in zip(shape_images, slices)
+        )
+
     work_multi = WorkPIV(params_default)
     work_multi._prepare_with_image(imshape=shape_images)
 
-- 
2.43.0


From 72fa5aa1f78fe149b5b7c6c9ff9d07a653d49030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:11 +0000
Subject: [PATCH 021/105] fix: parameters of PIV with rectangular interrogation
 windows can be loaded from result files

---
 src/fluidimage/works/piv/multipass.py  | 8 ++++++--
 src/fluidimage/works/piv/singlepass.py | 6 ++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/fluidimage/works/piv/multipass.py b/src/fluidimage/works/piv/multipass.py
index 77eedc6..1c3ba4c 100644
--- a/src/fluidimage/works/piv/multipass.py
+++ b/src/fluidimage/works/piv/multipass.py
@@ -9,6 +9,8 @@
 
 from copy import copy
 
+import numpy as np
+
 from ...data_objects.piv import MultipassPIVResults
 from .. import BaseWorkFromSerie
 from .fix import WorkFIX
@@ -131,7 +133,8 @@ class WorkPIV(BaseWorkFromSerie):
         if isinstance(shape_crop_im0, int):
             shape_crop_im0 = (shape_crop_im0, shape_crop_im0)
         elif (
-            isinstance(shape_crop_im0, (list, tuple)) and len(shape_crop_im0) == 2
+            isinstance(shape_crop_im0, (list, tuple, np.ndarray))
+            and len(shape_crop_im0) == 2
         ):
             shape_crop_im0 = tuple(shape_crop_im0)
         else:
@@ -142,7 +145,8 @@ class WorkPIV(BaseWorkFromSerie):
         if isinstance(shape_crop_im1, int):
             shape_crop_im1 = (shape_crop_im1, shape_crop_im1)
         elif (
-            isinstance(shape_crop_im1, (list, tuple)) and len(shape_crop_im1) == 2
+            isinstance(shape_crop_im1, (list, tuple, np.ndarray))
+            and len(shape_crop_im1) == 2
         ):
             shape_crop_im1 = tuple(shape_crop_im1)
         else:
diff --git a/src/fluidimage/works/piv/singlepass.py b/src/fluidimage/works/piv/singlepass.py
index 1b60238..efa3aa4 100644
--- a/src/fluidimage/works/piv/singlepass.py
+++ b/src/fluidimage/works/piv/singlepass.py
@@ -56,7 +56,8 @@ class BaseWorkPIV(BaseWorkWithMask):
         if _isint(shape_crop_im0):
             shape_crop_im0 = (shape_crop_im0, shape_crop_im0)
         elif (
-            isinstance(shape_crop_im0, (tuple, list)) and len(shape_crop_im0) == 2
+            isinstance(shape_crop_im0, (tuple, list, np.ndarray))
+            and len(shape_crop_im0) == 2
         ):
             shape_crop_im0 = tuple(shape_crop_im0)
         else:
@@ -67,7 +68,8 @@ class BaseWorkPIV(BaseWorkWithMask):
         if _isint(shape_crop_im1):
             shape_crop_im1 = (shape_crop_im1, shape_crop_im1)
         elif (
-            isinstance(shape_crop_im1, (tuple, list)) and len(shape_crop_im1) == 2
+            isinstance(shape_crop_im1, (tuple, list, np.ndarray))
+            and len(shape_crop_im1) == 2
         ):
             shape_crop_im1 = tuple(shape_crop_im1)
         else:
-- 
2.43.0


From a7e1b69c3377e7d04a886c0d9bf7f85e2f74fcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:11 +0000
Subject: [PATCH 022/105] fix: LightPIVResults loaded from a file with more
 than 10 passes

---
 src/fluidimage/data_objects/piv.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fluidimage/data_objects/piv.py b/src/fluidimage/data_objects/piv.py
index 93a4c3e..d84bf0e 100644
--- a/src/fluidimage/data_objects/piv.py
+++ b/src/fluidimage/data_objects/piv.py
@@ -879,7 +879,9 @@ class LightPIVResults(DataObject):
 
         with h5py.File(path, "r") as file:
             keys = [(key) for key in file.keys() if "piv" in key]
-            self._load_from_hdf5_object(file[max(keys)])
+            # the last pass ("piv10" is after "piv9")
+            key_last = max(keys, key=lambda key: (len(key), key))
+            self._load_from_hdf5_object(file[key_last])
 
     def _load_from_hdf5_object(self, g_piv):
         file = g_piv.parent
-- 
2.43.0


From f6591bc8229501b391ccddc2cc04d4e9f92e351c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:34 +0000
Subject: [PATCH 023/105] fix: names of the PIV results for images with 3
 indices (TypeError, no result)

---
 src/fluidimage/data_objects/piv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/data_objects/piv.py b/src/fluidimage/data_objects/piv.py
index d84bf0e..6a24800 100644
--- a/src/fluidimage/data_objects/piv.py
+++ b/src/fluidimage/data_objects/piv.py
@@ -50,7 +50,7 @@ def get_name_piv(serie, prefix="piv"):
                 str_index += sep + last
 
         if idim > 1:
-            str_indices += serie.get_index_separators[idim - 1]
+            str_indices += serie.get_index_separators()[idim - 1]
         str_indices += str_index
 
     name = prefix + "_" + str_indices + ".h5"
-- 
2.43.0


From 892ce01730efd2e436b498946088466f4a6e4f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:04 +0000
Subject: [PATCH 024/105] fix: get_grid_pixel: indices in the images (as the
 results) also with params.mask.strcrop

---
 src/fluidimage/postproc/piv.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/fluidimage/postproc/piv.py b/src/fluidimage/postproc/piv.py
index 82e8b99..6498f5b 100644
--- a/src/fluidimage/postproc/piv.py
+++ b/src/fluidimage/postproc/piv.py
@@ -101,7 +101,7 @@ def get_grid_pixel(params, shape_images, index_pass=-1):
     params_default._modif_from_other_params(params)
 
     if params_default.mask.strcrop is not None:
-        # the positions are indices in the cropped images
+        # the vectors are computed from the cropped images
         slices = get_slices_from_strcrop(params_default.mask.strcrop)
         shape_images = tuple(
             len(range(n)[slice_]) for n, slice_ in zip(shape_images, slices)
@@ -111,10 +111,7 @@ def get_grid_pixel(params, shape_images, index_pass=-1):
     work_multi._prepare_with_image(imshape=shape_images)
 
     work = work_multi.works_piv[index_pass]
-    xs1d = work.ixvecs
-    ys1d = work.iyvecs
-
-    return xs1d, ys1d
+    return work._xyoriginalimage_from_xymasked(work.ixvecs, work.iyvecs)
 
 
 class ArrayPIV(ArrayOfVectorFieldsOnGrid):
-- 
2.43.0


From 94001550280b7ed925b826d82e3c4446857c6c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:46 +0000
Subject: [PATCH 025/105] fix: energy computed from the Fourier transform (norm
 of the correlation) for odd sizes

---
 src/fluidimage/calcul/fft.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fluidimage/calcul/fft.py b/src/fluidimage/calcul/fft.py
index 56e2190..205ff95 100644
--- a/src/fluidimage/calcul/fft.py
+++ b/src/fluidimage/calcul/fft.py
@@ -119,7 +119,13 @@ class OperatorFFTBase(ABC):
 
     def compute_energy_from_fourier(self, field_fft):
         """Compute the energy from a field in Fourier space"""
-        return _compute_energy_from_fourier(field_fft, self.coef_norm_energy)
+        energy = _compute_energy_from_fourier(field_fft, self.coef_norm_energy)
+        if self.shapeX[1] % 2 == 1:
+            # no Nyquist mode: the last column also has to be counted twice
+            energy += (
+                0.5 / self.coef_norm_energy * np.sum(abs(field_fft[:, -1]) ** 2)
+            )
+        return energy
 
     def compute_energy_from_spatial(self, field):
         """Compute energy from a field in real space"""
-- 
2.43.0


From abee2d701ca5be5d997a45d6391134ce049a4bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:46 +0000
Subject: [PATCH 026/105] fix: correl_numpy read outside of the windows for odd
 shapes

---
 src/fluidimage/calcul/correl.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fluidimage/calcul/correl.py b/src/fluidimage/calcul/correl.py
index a006ba0..b5aac82 100644
--- a/src/fluidimage/calcul/correl.py
+++ b/src/fluidimage/calcul/correl.py
@@ -334,7 +334,7 @@ def correl_numpy(im0: A2df32, im1: A2df32, disp_max: int):
             correl[xiy, xix] = tmp / (nxmax * nymax)
         for xix in range(disp_max):
             dispx = xix + 1
-            nxmax = nx1 - max(nx0 // 2 + nx1 // 2 + dispx - nx0, 0)
+            nxmax = nx1 - max(nx0 // 2 - nx1 // 2 + nx1 + dispx - nx0, 0)
             nx1dep = 0
             nx0dep = nx0 // 2 - nx1 // 2 + dispx
             tmp = zero
@@ -347,7 +347,7 @@ def correl_numpy(im0: A2df32, im1: A2df32, disp_max: int):
             correl[xiy, xix + disp_max + 1] = tmp / (nxmax * nymax)
     for xiy in range(disp_max):
         dispy = xiy + 1
-        nymax = ny1 - max(ny0 // 2 + ny1 // 2 + dispy - ny0, 0)
+        nymax = ny1 - max(ny0 // 2 - ny1 // 2 + ny1 + dispy - ny0, 0)
         ny1dep = 0
         ny0dep = ny0 // 2 - ny1 // 2 + dispy
         for xix in range(disp_max + 1):
@@ -365,7 +365,7 @@ def correl_numpy(im0: A2df32, im1: A2df32, disp_max: int):
             correl[xiy + disp_max + 1, xix] = tmp / (nxmax * nymax)
         for xix in range(disp_max):
             dispx = xix + 1
-            nxmax = nx1 - max(nx0 // 2 + nx1 // 2 + dispx - nx0, 0)
+            nxmax = nx1 - max(nx0 // 2 - nx1 // 2 + nx1 + dispx - nx0, 0)
             nx1dep = 0
             nx0dep = nx0 // 2 - nx1 // 2 + dispx
             tmp = zero
-- 
2.43.0


From da58fe3f1e3c3d7d04ec91f6924521793fe36f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:46 +0000
Subject: [PATCH 027/105] fix: displacement_max can be given for the
 correlation method 'pythran' (UnboundLocalError)

---
 src/fluidimage/calcul/correl.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fluidimage/calcul/correl.py b/src/fluidimage/calcul/correl.py
index b5aac82..765a8d2 100644
--- a/src/fluidimage/calcul/correl.py
+++ b/src/fluidimage/calcul/correl.py
@@ -398,6 +398,8 @@ class CorrelPythran(CorrelBase):
                     // 2
                     - 1
                 )
+        else:
+            displacement_max = int(self.displacement_max)
         if displacement_max <= 0:
             raise ValueError(
                 "displacement_max <= 0 : problem with images shapes?"
-- 
2.43.0


From e767b89c8d99a30e4e4cdacf69545c700874ff82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:32 +0000
Subject: [PATCH 028/105] fix: correlation peaks close to the top and left
 boundaries were not masked

---
 src/fluidimage/calcul/correl.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/fluidimage/calcul/correl.py b/src/fluidimage/calcul/correl.py
index 765a8d2..51623e3 100644
--- a/src/fluidimage/calcul/correl.py
+++ b/src/fluidimage/calcul/correl.py
@@ -223,6 +223,14 @@ class CorrelBase(ABC):
             correl, norm, self.start_stop_for_search0, self.start_stop_for_search1
         )
 
+    def _mask_peak(self, correl, ix, iy):
+        """Remove a peak (also when it is close to the boundaries)"""
+        radius = self.particle_radius
+        correl[
+            max(iy - radius, 0) : iy + radius + 1,
+            max(ix - radius, 0) : ix + radius + 1,
+        ] = np.nan
+
     def compute_displacements_from_correl(self, correl, norm=1.0):
         """Compute the displacement from a correlation."""
 
@@ -231,10 +239,7 @@ class CorrelBase(ABC):
         except PIVError as piv_error:
             ix, iy, correl_max = piv_error.results
             # second chance to find a better peak...
-            correl[
-                iy - self.particle_radius : iy + self.particle_radius + 1,
-                ix - self.particle_radius : ix + self.particle_radius + 1,
-            ] = np.nan
+            self._mask_peak(correl, ix, iy)
             try:
                 ix2, iy2, correl_max2 = self._compute_indices_max(correl, norm)
             except PIVError as _piv_error:
@@ -253,10 +258,7 @@ class CorrelBase(ABC):
             correl = correl.copy()
             other_peaks = []
             for _ in range(0, self.nb_peaks_to_search - 1):
-                correl[
-                    iy - self.particle_radius : iy + self.particle_radius + 1,
-                    ix - self.particle_radius : ix + self.particle_radius + 1,
-                ] = np.nan
+                self._mask_peak(correl, ix, iy)
                 try:
                     ix, iy, correl_max_other = self._compute_indices_max(
                         correl, norm
-- 
2.43.0


From eaf6c4e7b5c35098e72cc8968ea6c620534de052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:32 +0000
Subject: [PATCH 029/105] fix: search of a correlation peak when everything is
 masked (AssertionError)

---
 src/fluidimage/calcul/correl.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fluidimage/calcul/correl.py b/src/fluidimage/calcul/correl.py
index 51623e3..8cc5919 100644
--- a/src/fluidimage/calcul/correl.py
+++ b/src/fluidimage/calcul/correl.py
@@ -105,8 +105,7 @@ def nan_indices_max(
             correl_max = value
             break
 
-    assert not np.isnan(correl_max)
-
+    # if there are only nan (no peak), (0, 0) is returned with an error message
     i0_max = 0
     i1_max = 0
 
-- 
2.43.0


From 1b7db7015e54306a34f737f418833bac5f3df02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:19 +0000
Subject: [PATCH 030/105] fix: correlation scipy.signal: displacements shifted
 by one pixel (windows with even and odd sizes)

---
 src/fluidimage/calcul/correl.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/fluidimage/calcul/correl.py b/src/fluidimage/calcul/correl.py
index 8cc5919..af27ae9 100644
--- a/src/fluidimage/calcul/correl.py
+++ b/src/fluidimage/calcul/correl.py
@@ -468,20 +468,23 @@ class CorrelScipySignal(CorrelBase):
             raise ValueError("mode should be in " + modes)
 
         if self.mode == "same":
+            # the output of correlate2d is shifted when im1 has an even size
             ny, nx = self.im0_shape
-            if nx % 2 == 0:
+            ny1, nx1 = self.im1_shape
+            if nx1 % 2 == 0:
                 ind0x = nx // 2 - 1
             else:
                 ind0x = nx // 2
-            if ny % 2 == 0:
+            if ny1 % 2 == 0:
                 ind0y = ny // 2 - 1
             else:
                 ind0y = ny // 2
 
         else:
-            ny, nx = np.array(self.im0_shape) - np.array(self.im1_shape)
-            ind0x = nx // 2
-            ind0y = ny // 2
+            ind0y, ind0x = (
+                n0 // 2 - n1 // 2
+                for n0, n1 in zip(self.im0_shape, self.im1_shape)
+            )
 
         self.iy0, self.ix0 = (ind0y, ind0x)
 
-- 
2.43.0


From c13487133ca4d08131a11fb1ee502c7065e56bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:39 +0000
Subject: [PATCH 031/105] fix: displacements of secondary peaks compared with
 displacement_max (it was the square)

---
 src/fluidimage/works/piv/fix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/works/piv/fix.py b/src/fluidimage/works/piv/fix.py
index 8867d64..ec1da7f 100644
--- a/src/fluidimage/works/piv/fix.py
+++ b/src/fluidimage/works/piv/fix.py
@@ -189,7 +189,7 @@ Parameters indicating how are detected and processed false vectors.
 
                 if (
                     self.params_fix.displacement_max
-                    and dx**2 + dy**2 > self.params_fix.displacement_max
+                    and dx**2 + dy**2 > displacement_max2
                 ):
                     continue
 
-- 
2.43.0


From cc5f0fc0a8c6b1d9877c7b2693c3d2f5b25bd228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:39 +0000
Subject: [PATCH 032/105] fix: WorkFIX without threshold_diff_neighbour
 (secondary peaks: NameError; wrong vectors not kept)

---
 src/fluidimage/works/piv/fix.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/fluidimage/works/piv/fix.py b/src/fluidimage/works/piv/fix.py
index ec1da7f..349b0b6 100644
--- a/src/fluidimage/works/piv/fix.py
+++ b/src/fluidimage/works/piv/fix.py
@@ -102,22 +102,24 @@ Parameters indicating how are detected and processed false vectors.
                 inds = (delta2s > displacement_max2).nonzero()[0]
             put_to_nan(inds, "delta2 < displacement_max2")
 
-        if self.params_fix.threshold_diff_neighbour is not None:
-            threshold = self.params_fix.threshold_diff_neighbour
-            ixvecs = self.piv_work.ixvecs
-            iyvecs = self.piv_work.iyvecs
+        # differences with the neighbours (also used for the secondary peaks)
+        ixvecs = self.piv_work.ixvecs
+        iyvecs = self.piv_work.iyvecs
 
-            ixvecs, iyvecs = self.piv_work._xyoriginalimage_from_xymasked(
-                ixvecs, iyvecs
-            )
+        ixvecs, iyvecs = self.piv_work._xyoriginalimage_from_xymasked(
+            ixvecs, iyvecs
+        )
 
-            dxs_neighbors, dys_neighbors = mean_neighbors_xy(
-                deltaxs, deltays, iyvecs, ixvecs
-            )
+        dxs_neighbors, dys_neighbors = mean_neighbors_xy(
+            deltaxs, deltays, iyvecs, ixvecs
+        )
+
+        diff_x = dxs_neighbors - deltaxs
+        diff_y = dys_neighbors - deltays
+        differences2 = diff_x**2 + diff_y**2
 
-            diff_x = dxs_neighbors - deltaxs
-            diff_y = dys_neighbors - deltays
-            differences2 = diff_x**2 + diff_y**2
+        if self.params_fix.threshold_diff_neighbour is not None:
+            threshold = self.params_fix.threshold_diff_neighbour
 
             with np.errstate(invalid="ignore"):
                 inds = (differences2 > threshold**2).nonzero()[0]
@@ -129,8 +131,8 @@ Parameters indicating how are detected and processed false vectors.
                     ivec
                 ] += f" (diff = {sqrt(differences2[ivec]):.2f})"
 
-            piv_results.deltaxs_wrong = deltaxs_wrong
-            piv_results.deltays_wrong = deltays_wrong
+        piv_results.deltaxs_wrong = deltaxs_wrong
+        piv_results.deltays_wrong = deltays_wrong
 
         if self.piv_work.params.piv0.nb_peaks_to_search < 2:
             return piv_results
-- 
2.43.0


From f734e3f3dcc1ba8f7da98d64ad33b902b7310bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:39 +0000
Subject: [PATCH 033/105] fix: PIV with only one row or one column of vectors
 (IndexError in mean_neighbors_xy)

---
 src/fluidimage/calcul/mean_neighbors.py | 34 +++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/calcul/mean_neighbors.py b/src/fluidimage/calcul/mean_neighbors.py
index bc1bc06..eb11e69 100644
--- a/src/fluidimage/calcul/mean_neighbors.py
+++ b/src/fluidimage/calcul/mean_neighbors.py
@@ -125,6 +125,32 @@ def _mean_neighbors(arr, arr_is_not_nan):
     return arr_output
 
 
+def _mean_neighbors_line(arr, arr_is_not_nan):
+    """Same as `_mean_neighbors` for only one row or one column"""
+    n0, n1 = arr.shape
+    values = arr.ravel()
+    is_not_nan = arr_is_not_nan.ravel()
+    output = np.empty_like(values)
+    n = n0 * n1
+
+    for idx in range(n):
+        output[idx] = np.nan
+        if not is_not_nan[idx]:
+            continue
+        tmp = 0.0
+        nb_pts = 0
+        if idx > 0 and is_not_nan[idx - 1]:
+            tmp += values[idx - 1]
+            nb_pts += 1
+        if idx < n - 1 and is_not_nan[idx + 1]:
+            tmp += values[idx + 1]
+            nb_pts += 1
+        if nb_pts > 0:
+            output[idx] = tmp / nb_pts
+
+    return output.reshape(arr.shape)
+
+
 @boost
 def mean_neighbors_xy(
     deltaxs: "float32[]",
@@ -150,6 +176,10 @@ def mean_neighbors_xy(
                 deltaxs2d[i0, i1] = 0.0
                 deltays2d[i0, i1] = 0.0
 
-    mean_x = _mean_neighbors(deltaxs2d, arr_is_not_nan)
-    mean_y = _mean_neighbors(deltays2d, arr_is_not_nan)
+    if n0 == 1 or n1 == 1:
+        mean_x = _mean_neighbors_line(deltaxs2d, arr_is_not_nan)
+        mean_y = _mean_neighbors_line(deltays2d, arr_is_not_nan)
+    else:
+        mean_x = _mean_neighbors(deltaxs2d, arr_is_not_nan)
+        mean_y = _mean_neighbors(deltays2d, arr_is_not_nan)
     return mean_x.reshape(n0 * n1), mean_y.reshape(n0 * n1)
-- 
2.43.0


From 68d05ac82f0a09b8f62aa50ab589372c0bec6fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:19 +0000
Subject: [PATCH 034/105] fix: interpolation of the PIV displacements with less
 than 3 valid vectors or aligned vectors (QhullError, no result)

---
 src/fluidimage/calcul/interpolate/griddata.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/fluidimage/calcul/interpolate/griddata.py b/src/fluidimage/calcul/interpolate/griddata.py
index 169031e..c5180c1 100644
--- a/src/fluidimage/calcul/interpolate/griddata.py
+++ b/src/fluidimage/calcul/interpolate/griddata.py
@@ -6,6 +6,7 @@
 
 import numpy as np
 from scipy import interpolate
+from scipy.spatial import QhullError
 
 
 def griddata(centers, values, new_positions):
@@ -14,9 +15,13 @@ def griddata(centers, values, new_positions):
     grid_x, grid_y = np.meshgrid(xnew, ynew)
 
     # 'linear' or 'cubic'
-    values_new = interpolate.griddata(
-        centers.T, values, (grid_x, grid_y), "linear"
-    )
+    try:
+        values_new = interpolate.griddata(
+            centers.T, values, (grid_x, grid_y), "linear"
+        )
+    except QhullError:
+        # no triangulation (less than 3 points or aligned points)
+        values_new = np.full(grid_x.shape, np.nan)
 
     inds = np.where(np.isnan(values_new))
     values_nearest = interpolate.griddata(
-- 
2.43.0


From 2401abbb49cf98874f4653e2dacce2461a8af521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:08 +0000
Subject: [PATCH 035/105] fix: TPS interpolation with aligned valid vectors
 (OverflowError, no PIV result)

---
 .../calcul/interpolate/thin_plate_spline_subdom.py |  2 ++
 src/fluidimage/works/piv/singlepass.py             | 14 +++++++-------
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/fluidimage/calcul/interpolate/thin_plate_spline_subdom.py b/src/fluidimage/calcul/interpolate/thin_plate_spline_subdom.py
index 10f7479..c2904c0 100644
--- a/src/fluidimage/calcul/interpolate/thin_plate_spline_subdom.py
+++ b/src/fluidimage/calcul/interpolate/thin_plate_spline_subdom.py
@@ -55,6 +55,8 @@ class ThinPlateSplineSubdom:
         y_min, y_max = ys.min(), ys.max()
         range_x = x_max - x_min
         range_y = y_max - y_min
+        if range_x == 0 or range_y == 0:
+            raise np.linalg.LinAlgError("TPS impossible with aligned positions")
         aspect_ratio = range_y / range_x
 
         nb_subdom = xs.size / self.subdom_size
diff --git a/src/fluidimage/works/piv/singlepass.py b/src/fluidimage/works/piv/singlepass.py
index efa3aa4..40a143a 100644
--- a/src/fluidimage/works/piv/singlepass.py
+++ b/src/fluidimage/works/piv/singlepass.py
@@ -481,14 +481,14 @@ class BaseWorkPIV(BaseWorkWithMask):
                 f"{smoothing_coef=}, {threshold=})."
             )
 
-            tps = ThinPlateSplineSubdom(
-                centers,
-                subdom_size,
-                smoothing_coef,
-                threshold=threshold,
-                percent_buffer_area=20,
-            )
             try:
+                tps = ThinPlateSplineSubdom(
+                    centers,
+                    subdom_size,
+                    smoothing_coef,
+                    threshold=threshold,
+                    percent_buffer_area=20,
+                )
                 (
                     deltaxs_smooth,
                     deltaxs_tps,
-- 
2.43.0


From 5bfa0997c7ff4a81ccc26cc4d02ea2c05de1e282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:08 +0000
Subject: [PATCH 036/105] fix: TPS with aligned vectors in a subdomain (wrong
 displacements)

---
 src/fluidimage/calcul/interpolate/thin_plate_spline.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fluidimage/calcul/interpolate/thin_plate_spline.py b/src/fluidimage/calcul/interpolate/thin_plate_spline.py
index 39d6918..6f54c7a 100644
--- a/src/fluidimage/calcul/interpolate/thin_plate_spline.py
+++ b/src/fluidimage/calcul/interpolate/thin_plate_spline.py
@@ -204,6 +204,10 @@ def compute_tps_weights(centers, values, smoothing_coef):
     smoothing_mat = smoothing_coef * np.eye(num_values, num_values)
     smoothing_mat = np.hstack([smoothing_mat, np.zeros([num_values, nb_dim + 1])])
     PM = np.hstack([np.ones([num_values, 1]), centers.T])
+    if np.linalg.matrix_rank(PM) < nb_dim + 1:
+        # not enough or aligned centers: the matrix IM is singular (but because
+        # of rounding errors, np.linalg.solve can give nonsense)
+        raise np.linalg.LinAlgError("Singular matrix")
     IM = np.vstack(
         [
             EM + smoothing_mat,
-- 
2.43.0


From d9989bcfc57e7e7185cb01751bb40a919697c7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:19 +0000
Subject: [PATCH 037/105] fix: TPS without threshold (KeyError for
 params.multipass.threshold_tps = None)

---
 .../calcul/interpolate/thin_plate_spline_subdom.py           | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/fluidimage/calcul/interpolate/thin_plate_spline_subdom.py b/src/fluidimage/calcul/interpolate/thin_plate_spline_subdom.py
index c2904c0..5646265 100644
--- a/src/fluidimage/calcul/interpolate/thin_plate_spline_subdom.py
+++ b/src/fluidimage/calcul/interpolate/thin_plate_spline_subdom.py
@@ -251,12 +251,11 @@ class ThinPlateSplineSubdom:
             centers, values, smoothing_coef
         )
         count = 1
+        differences = np.sqrt((smoothed_values - values) ** 2)
+        summary["max(Udiff)"] = max(differences)
         if self.threshold is not None:
-            differences = np.sqrt((smoothed_values - values) ** 2)
             ind_erratic_vector = np.argwhere(differences > self.threshold)
 
-            summary["max(Udiff)"] = max(differences)
-
             nb_fixed_vectors = 0
             while ind_erratic_vector.size != 0:
                 nb_fixed_vectors += ind_erratic_vector.size
-- 
2.43.0


From 7297f3baff845b388a702f5b65368807d26a9bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:19 +0000
Subject: [PATCH 038/105] fix: derivatives of the thin plate splines (linear
 parts of the derivatives were swapped)

---
 src/fluidimage/calcul/interpolate/thin_plate_spline.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/calcul/interpolate/thin_plate_spline.py b/src/fluidimage/calcul/interpolate/thin_plate_spline.py
index 6f54c7a..9443a87 100644
--- a/src/fluidimage/calcul/interpolate/thin_plate_spline.py
+++ b/src/fluidimage/calcul/interpolate/thin_plate_spline.py
@@ -256,8 +256,9 @@ def compute_tps_matrices_dxy(dsites, centers):
     DY = Dsites - Centers
     DM = DX * DX + DY * DY
     DM[DM != 0] = np.log(DM[DM != 0]) + 1
-    DMX = np.vstack([DX * DM, np.zeros(M), np.ones(M), np.zeros(M)])
-    DMY = np.vstack([DY * DM, np.zeros(M), np.zeros(M), np.ones(M)])
+    # the linear part is ordered as the positions ([ys, xs])
+    DMX = np.vstack([DX * DM, np.zeros(M), np.zeros(M), np.ones(M)])
+    DMY = np.vstack([DY * DM, np.zeros(M), np.ones(M), np.zeros(M)])
     return DMX, DMY
 
 
-- 
2.43.0


From ff43ca2908ac0f52502b7d2c97f560986171f2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:43 +0000
Subject: [PATCH 039/105] fix: TPS with empty subdomains (LinAlgError as for
 aligned vectors)

---
 src/fluidimage/calcul/interpolate/thin_plate_spline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/calcul/interpolate/thin_plate_spline.py b/src/fluidimage/calcul/interpolate/thin_plate_spline.py
index 9443a87..40ba419 100644
--- a/src/fluidimage/calcul/interpolate/thin_plate_spline.py
+++ b/src/fluidimage/calcul/interpolate/thin_plate_spline.py
@@ -204,7 +204,7 @@ def compute_tps_weights(centers, values, smoothing_coef):
     smoothing_mat = smoothing_coef * np.eye(num_values, num_values)
     smoothing_mat = np.hstack([smoothing_mat, np.zeros([num_values, nb_dim + 1])])
     PM = np.hstack([np.ones([num_values, 1]), centers.T])
-    if np.linalg.matrix_rank(PM) < nb_dim + 1:
+    if num_values <= nb_dim or np.linalg.matrix_rank(PM) <= nb_dim:
         # not enough or aligned centers: the matrix IM is singular (but because
         # of rounding errors, np.linalg.solve can give nonsense)
         raise np.linalg.LinAlgError("Singular matrix")
-- 
2.43.0


From 6b5d3a6b12ab0c5ba80c7a6cb289d37dbdae453d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 040/105] fix: HDF5 results with wrong data after a transient
 writing error (ignored by h5py when a dataset is closed)

---
 src/fluidimage/data_objects/piv.py | 9 ++++++---
 src/fluidimage/topologies/mean.py  | 3 ++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/fluidimage/data_objects/piv.py b/src/fluidimage/data_objects/piv.py
index 6a24800..623e43c 100644
--- a/src/fluidimage/data_objects/piv.py
+++ b/src/fluidimage/data_objects/piv.py
@@ -373,7 +373,8 @@ class HeavyPIVResults(DataObject):
                 with h5netcdf.File(path_tmp, "w") as file:
                     self._save_as_uvmat(file)
             else:
-                with h5py.File(path_tmp, "w") as file:
+                # (core: written in one go, no writing error ignored by h5py)
+                with h5py.File(path_tmp, "w", driver="core") as file:
                     file.attrs["class_name"] = "HeavyPIVResults"
                     file.attrs["module_name"] = "fluidimage.data_objects.piv"
                     self._save_in_hdf5_object(file)
@@ -597,7 +598,8 @@ class MultipassPIVResults(DataObject):
                 with h5netcdf.File(path_tmp, "w") as file:
                     self._save_as_uvmat(file)
             else:
-                with h5py.File(path_tmp, "w") as file:
+                # (core: written in one go, no writing error ignored by h5py)
+                with h5py.File(path_tmp, "w", driver="core") as file:
                     file.attrs["class_name"] = "MultipassPIVResults"
                     file.attrs["module_name"] = "fluidimage.data_objects.piv"
                     file.attrs["Conventions"] = (
@@ -840,7 +842,8 @@ class LightPIVResults(DataObject):
             path_file = name
 
         with atomic_saving(path_file) as path_tmp:
-            with h5py.File(path_tmp, "w") as file:
+            # (core: written in one go, no writing error ignored by h5py)
+            with h5py.File(path_tmp, "w", driver="core") as file:
                 file.attrs["class_name"] = "LightPIVResults"
                 file.attrs["module_name"] = "fluidimage.data_objects.piv"
                 file.attrs["Conventions"] = (
diff --git a/src/fluidimage/topologies/mean.py b/src/fluidimage/topologies/mean.py
index dafc1a5..6a02ae8 100644
--- a/src/fluidimage/topologies/mean.py
+++ b/src/fluidimage/topologies/mean.py
@@ -158,7 +158,8 @@ class TopologyMeanImage(TopologyBaseFromImages):
                 index_process = 0
 
             path = executor.path_job_data / f"tmp_sum{index_process:03d}.h5"
-            with h5py.File(path, "w") as file:
+            # (core: written in one go, no writing error ignored by h5py)
+            with h5py.File(path, "w", driver="core") as file:
                 file.create_dataset("arr", data=arr_result)
                 file.attrs["num_images"] = n_result
 
-- 
2.43.0


From 3ee3c640ec8b1ee1280ab844bc9b1bb0e883aaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 041/105] fix: optical flow: null displacements removed when
 only displacement_max is given

---
 src/fluidimage/works/optical_flow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/works/optical_flow.py b/src/fluidimage/works/optical_flow.py
index 5c947fd..842c4a8 100644
--- a/src/fluidimage/works/optical_flow.py
+++ b/src/fluidimage/works/optical_flow.py
@@ -62,7 +62,7 @@ def optical_flow(
             vmax = np.inf
 
         norm = np.sqrt(displacements[:, 0] ** 2 + displacements[:, 1] ** 2)
-        cond = (vmin < norm) & (norm < vmax)
+        cond = (vmin <= norm) & (norm <= vmax)
         positions = positions[cond]
         displacements = displacements[cond]
 
-- 
2.43.0


From 3b9f7eef23c6de2da5cc07ba66015aea0cd91345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 042/105] fix: PIV with images as large as the interrogation
 window (IndexError, no result)

---
 src/fluidimage/works/piv/singlepass.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/works/piv/singlepass.py b/src/fluidimage/works/piv/singlepass.py
index 40a143a..b9c3df0 100644
--- a/src/fluidimage/works/piv/singlepass.py
+++ b/src/fluidimage/works/piv/singlepass.py
@@ -121,10 +121,14 @@ class BaseWorkPIV(BaseWorkWithMask):
         assert stepx >= 1
 
         ixvec_max = len_x - self._stop_for_crop0[1]
-        ixvecs = np.arange(self._start_for_crop0[1], ixvec_max, stepx, dtype=int)
+        ixvecs = np.arange(
+            self._start_for_crop0[1], ixvec_max + 1, stepx, dtype=int
+        )
 
         iyvec_max = len_y - self._stop_for_crop0[0]
-        iyvecs = np.arange(self._start_for_crop0[0], iyvec_max, stepy, dtype=int)
+        iyvecs = np.arange(
+            self._start_for_crop0[0], iyvec_max + 1, stepy, dtype=int
+        )
 
         # There are some cases for which it is worth to add the last points...
         if ixvec_max - ixvecs[-1] > stepx // 2.5:
-- 
2.43.0


From a0dcd52ba94f8d7eff1d5985768e448e39fe935d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:38 +0000
Subject: [PATCH 043/105] fix: extract_square for fields with more lines than
 columns (not square)

---
 src/fluidimage/postproc/vector_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/postproc/vector_field.py b/src/fluidimage/postproc/vector_field.py
index 993e538..215b506 100644
--- a/src/fluidimage/postproc/vector_field.py
+++ b/src/fluidimage/postproc/vector_field.py
@@ -535,7 +535,7 @@ class VectorFieldOnGrid:
             start1 = cut
             stop1 = cut + n
             start0 = (n0 - n) // 2
-            stop0 = start1 + n
+            stop0 = start0 + n
 
         return self.extract(start0, stop0, start1, stop1)
 
-- 
2.43.0


From 65175e08268006fd5cea7bc2659ac839ba1f5271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:38 +0000
Subject: [PATCH 044/105] fix: median_filter and regularize_grid for fields
 loaded from a file (error because of the 0d array vz)

---
 src/fluidimage/postproc/vector_field.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fluidimage/postproc/vector_field.py b/src/fluidimage/postproc/vector_field.py
index 215b506..8ba3f63 100644
--- a/src/fluidimage/postproc/vector_field.py
+++ b/src/fluidimage/postproc/vector_field.py
@@ -107,6 +107,8 @@ class VectorFieldOnGrid:
     ):
         if isinstance(z, np.ndarray) and z.ndim == 0:
             z = z.item()
+        if isinstance(vz, np.ndarray) and vz.ndim == 0:
+            vz = vz.item()
 
         self.x = x
         self.y = y
-- 
2.43.0


From 3b2f3548ac89bd61431ff92836975f5cad48ba48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:38 +0000
Subject: [PATCH 045/105] fix: display of arrays of fields (TypeError, skip
 given as step)

---
 src/fluidimage/postproc/vector_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/postproc/vector_field.py b/src/fluidimage/postproc/vector_field.py
index 8ba3f63..28b5c40 100644
--- a/src/fluidimage/postproc/vector_field.py
+++ b/src/fluidimage/postproc/vector_field.py
@@ -792,7 +792,7 @@ class ArrayOfVectorFieldsOnGrid:
         ax=None,
         skip=(slice(None), slice(None)),
     ):
-        ax = self._list[ind].display(scale, background, ax, skip)
+        ax = self._list[ind].display(scale, background, ax, skip=skip)
         fig = ax.figure
         self.currentind = ind
 
-- 
2.43.0


From 4941f0fde6c4ec246416b9963149c9bd69234803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:51 +0000
Subject: [PATCH 046/105] fix: Calibration2DSimple: aspect ratio of the pixels
 applied to the wrong direction

---
 src/fluidimage/calibration/calib2d_simple.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/calibration/calib2d_simple.py b/src/fluidimage/calibration/calib2d_simple.py
index 2a5f718..48186c5 100644
--- a/src/fluidimage/calibration/calib2d_simple.py
+++ b/src/fluidimage/calibration/calib2d_simple.py
@@ -72,7 +72,7 @@ class Calibration2DSimple:
         self.aspect_ratio_pixel = aspect_ratio_pixel
 
         self.xphys1pixel = distance / np.sqrt(
-            delta_point[0] ** 2 + (aspect_ratio_pixel * delta_point[1]) ** 2
+            (aspect_ratio_pixel * delta_point[0]) ** 2 + delta_point[1] ** 2
         )
         self.yphys1pixel = aspect_ratio_pixel * self.xphys1pixel
 
-- 
2.43.0


From c8a7ef23cd82895ffcb6d452b7ed7bbaee665e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:51 +0000
Subject: [PATCH 047/105] fix: Tsai calibration: UnboundLocalError for tilted
 slices without refraction

---
 src/fluidimage/calibration/calib_tsai.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fluidimage/calibration/calib_tsai.py b/src/fluidimage/calibration/calib_tsai.py
index b0a9f5e..8f2dfa5 100644
--- a/src/fluidimage/calibration/calib_tsai.py
+++ b/src/fluidimage/calibration/calib_tsai.py
@@ -42,6 +42,7 @@ class Calibration:
         Y = nbypix - Y
         # determine position of Z0
         testangle = 0
+        test_refraction = 0
         if (
             hasattr(params.slices, "slice_angle")
             and np.any(
-- 
2.43.0


From c030f432e3357e1bd8b3ebe1afbb787952a49baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:51 +0000
Subject: [PATCH 048/105] fix: Tsai calibration: Zphys for tilted slices with
 refraction (slopes of the virtual plane)

---
 src/fluidimage/calibration/calib_tsai.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/fluidimage/calibration/calib_tsai.py b/src/fluidimage/calibration/calib_tsai.py
index 8f2dfa5..38d9c18 100644
--- a/src/fluidimage/calibration/calib_tsai.py
+++ b/src/fluidimage/calibration/calib_tsai.py
@@ -111,16 +111,18 @@ class Calibration:
             if testangle:
                 a = -norm_plane[0] / norm_plane[2]
                 b = -norm_plane[1] / norm_plane[2]
+                # slopes of the virtual plane
+                avirt, bvirt = a, b
                 if test_refraction:
-                    a /= params.refraction_index
-                    b /= params.refraction_index
-
-                R[0] += a * R[2]
-                R[1] += b * R[2]
-                R[3] += a * R[5]
-                R[4] += b * R[5]
-                R[6] += a * R[8]
-                R[7] += b * R[8]
+                    avirt = a / params.refraction_index
+                    bvirt = b / params.refraction_index
+
+                R[0] += avirt * R[2]
+                R[1] += bvirt * R[2]
+                R[3] += avirt * R[5]
+                R[4] += bvirt * R[5]
+                R[6] += avirt * R[8]
+                R[7] += bvirt * R[8]
 
             Tx = params.T[0]
             Ty = params.T[1]
-- 
2.43.0


From e0d838904bc99d4dd5448ce681368ab873dd75ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:51 +0000
Subject: [PATCH 049/105] fix: Tsai calibration: phys2pix modified the arrays
 given by the user

---
 src/fluidimage/calibration/calib_tsai.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fluidimage/calibration/calib_tsai.py b/src/fluidimage/calibration/calib_tsai.py
index 38d9c18..1fb0b07 100644
--- a/src/fluidimage/calibration/calib_tsai.py
+++ b/src/fluidimage/calibration/calib_tsai.py
@@ -169,9 +169,9 @@ class Calibration:
 
     def phys2pix(self, Xphys, Yphys, Zphys=0):
         params = copy.deepcopy(self.params)
-        Xphys *= 100  # m to cm
-        Yphys *= 100  # m to cm
-        Zphys *= 100  # m to cm
+        Xphys = Xphys * 100  # m to cm
+        Yphys = Yphys * 100  # m to cm
+        Zphys = Zphys * 100  # m to cm
 
         if hasattr(params, "f") is False:
             params.f = np.asarray([1, 1])
-- 
2.43.0


From 014194d7ff05ec04d225ada5840446b53e909794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:51 +0000
Subject: [PATCH 050/105] fix: stereo reconstruction: common grid larger than
 the region seen by the first camera

---
 src/fluidimage/calibration/calib_direct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/calibration/calib_direct.py b/src/fluidimage/calibration/calib_direct.py
index ffdf6c1..7752044 100644
--- a/src/fluidimage/calibration/calib_direct.py
+++ b/src/fluidimage/calibration/calib_direct.py
@@ -508,7 +508,7 @@ class DirectStereoReconstruction:
         xmin = max([xmin0, xmin1])
         xmax = min([xmax0, xmax1])
         ymin = max([ymin0, ymin1])
-        ymax = min([ymax1, ymax1])
+        ymax = min([ymax0, ymax1])
 
         Lx0 = xmax0 - xmin0
         Ly0 = ymax0 - ymin0
-- 
2.43.0


From b2600df7f93be1039465a77f51569d158067faa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:51 +0000
Subject: [PATCH 051/105] fix: direct calibration: wrong optical paths for the
 pixels not covered by all the levels

---
 src/fluidimage/calibration/calib_direct.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/fluidimage/calibration/calib_direct.py b/src/fluidimage/calibration/calib_direct.py
index 7752044..0786105 100644
--- a/src/fluidimage/calibration/calib_direct.py
+++ b/src/fluidimage/calibration/calib_direct.py
@@ -233,13 +233,11 @@ class CalibDirect:
         X = np.array(X)
         Y = np.array(Y)
         XYZ = np.vstack([X, Y, Z]).transpose()
-        with warnings.catch_warnings():
-            warnings.simplefilter("ignore", category=RuntimeWarning)
-            XYZ0 = np.nanmean(XYZ, 0)
-        XYZ -= XYZ0
-        ind = ~np.isnan(X + Y)
-        XYZ = XYZ[ind, :]
+        # only the levels with points around this pixel
+        XYZ = XYZ[~np.isnan(X + Y), :]
         if XYZ.shape[0] > 1:
+            XYZ0 = XYZ.mean(axis=0)
+            XYZ -= XYZ0
             arg = np.argsort(XYZ[:, 2])
             XYZ = XYZ[arg, :]
             u, s, v = np.linalg.svd(XYZ, full_matrices=True, compute_uv=1)
-- 
2.43.0


From 41e294d54f321859df578aa74e8a019fe2c49f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:19 +0000
Subject: [PATCH 052/105] fix: Tsai calibration: IndexError for the 4th slice
 and the following without angles

---
 src/fluidimage/calibration/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/calibration/util.py b/src/fluidimage/calibration/util.py
index faae0b2..056fcd9 100644
--- a/src/fluidimage/calibration/util.py
+++ b/src/fluidimage/calibration/util.py
@@ -110,7 +110,7 @@ def make_params_calibration(path_file):
                     calib_uvmat["slice_angle"]
                 )
             else:
-                slice_angle = [0, 0, 0]
+                slice_angle = np.zeros([nb_slice, 3])
         else:
             for i in range(nb_slice):
                 zslice_coord[i][:] = get_number_from_string(
@@ -127,7 +127,7 @@ def make_params_calibration(path_file):
                         calib_uvmat["slice_angle_{}".format(i + 1)]
                     )
             else:
-                slice_angle = [0, 0, 0]
+                slice_angle = np.zeros([nb_slice, 3])
 
         params._set_child(
             "slices",
-- 
2.43.0


From d8fce92fbe4c1bdfb72ef46951181c010779f2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:09 +0000
Subject: [PATCH 053/105] fix: stereo reconstruction: singular or wrong result
 for some couples of cameras (common direction of the base vectors)

---
 src/fluidimage/calibration/calib_direct.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/fluidimage/calibration/calib_direct.py b/src/fluidimage/calibration/calib_direct.py
index 0786105..887c000 100644
--- a/src/fluidimage/calibration/calib_direct.py
+++ b/src/fluidimage/calibration/calib_direct.py
@@ -424,11 +424,12 @@ class DirectStereoReconstruction:
         if np.allclose(self.A0, self.A1):
             raise ValueError("The two calibrations have to be different.")
 
-        # M1, M2: see reconstruction function
-        self.invM0 = np.linalg.inv(np.vstack([self.B0[0:2, :], self.B1[0:1, :]]))
-        self.invM1 = np.linalg.inv(np.vstack([self.B0[0:1, :], self.B1[0:2, :]]))
-        self.invM2 = np.linalg.inv(np.vstack([self.B0[0:2, :], self.B1[1:2, :]]))
-        self.invM3 = np.linalg.inv(np.vstack([self.B0[1:2, :], self.B1[0:2, :]]))
+        # M1, M2: see reconstruction function (pinv because some of these matrices
+        # can be singular, they are then not used)
+        self.invM0 = np.linalg.pinv(np.vstack([self.B0[0:2, :], self.B1[0:1, :]]))
+        self.invM1 = np.linalg.pinv(np.vstack([self.B0[0:1, :], self.B1[0:2, :]]))
+        self.invM2 = np.linalg.pinv(np.vstack([self.B0[0:2, :], self.B1[1:2, :]]))
+        self.invM3 = np.linalg.pinv(np.vstack([self.B0[1:2, :], self.B1[0:2, :]]))
 
     def project2cam(
         self,
@@ -584,10 +585,10 @@ class DirectStereoReconstruction:
 
         # in the case where 2 vectors from different cameras are approximately
         # the same, they don't have to be used both in the computation
-        n1 = np.abs(np.inner(self.A0[0], self.A1[0]))
-        n2 = np.abs(np.inner(self.A0[1], self.A1[1]))
-        n3 = np.abs(np.inner(self.A0[1], self.A1[0]))
-        n4 = np.abs(np.inner(self.A0[0], self.A1[1]))
+        n1 = np.abs(np.inner(self.A0[:, 0], self.A1[:, 0]))
+        n2 = np.abs(np.inner(self.A0[:, 1], self.A1[:, 1]))
+        n3 = np.abs(np.inner(self.A0[:, 1], self.A1[:, 0]))
+        n4 = np.abs(np.inner(self.A0[:, 0], self.A1[:, 1]))
         # I suppose that 5deg between vectors is sufficient
         threshold = np.cos(5 * 2 * np.pi / 180.0)
 
-- 
2.43.0


From 3ba4bede328b4d008e8b9d9f2f7f42335894373c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 054/105] fix: construct_object_points for grids which are not
 square (x and y swapped)

---
 src/fluidimage/calibration/calib_cv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/calibration/calib_cv.py b/src/fluidimage/calibration/calib_cv.py
index 8061d9b..6508a69 100644
--- a/src/fluidimage/calibration/calib_cv.py
+++ b/src/fluidimage/calibration/calib_cv.py
@@ -181,7 +181,7 @@ def construct_object_points(nx: int, ny: int, z: float, ds: float):
     # nx, ny will refer the number of points on one side from now on
     nx = (nx - 1) // 2
     ny = (ny - 1) // 2
-    objp[:, :2] = np.mgrid[-ny:ny:stepy, -nx:nx:stepx].T.reshape(-1, 2) * ds
+    objp[:, :2] = np.mgrid[-nx:nx:stepx, -ny:ny:stepy].T.reshape(-1, 2) * ds
     objp[:, 2] = z
     return objp
 
-- 
2.43.0


From c1f0e84855566e535be042064da1e6eca85783b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 055/105] fix: CalibCV: FileNotFoundError for a file in the
 current directory (as the default one)

---
 src/fluidimage/calibration/calib_cv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fluidimage/calibration/calib_cv.py b/src/fluidimage/calibration/calib_cv.py
index 6508a69..290ac17 100644
--- a/src/fluidimage/calibration/calib_cv.py
+++ b/src/fluidimage/calibration/calib_cv.py
@@ -217,7 +217,8 @@ class CalibCV:
             }
         )
         path_dir = os.path.dirname(self.path_file)
-        os.makedirs(path_dir, exist_ok=True)
+        if path_dir:
+            os.makedirs(path_dir, exist_ok=True)
         if os.path.exists(self.path_file):
             print(f"WARNING: {self.path_file} already exists. Skipping save.")
         else:
-- 
2.43.0


From d6015ab8eba7405c4502e07b113e927f193b707b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 056/105] fix: CalibCV.get_translate: TypeError just after a
 calibration

---
 src/fluidimage/calibration/calib_cv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/calibration/calib_cv.py b/src/fluidimage/calibration/calib_cv.py
index 290ac17..88a6f65 100644
--- a/src/fluidimage/calibration/calib_cv.py
+++ b/src/fluidimage/calibration/calib_cv.py
@@ -212,7 +212,7 @@ class CalibCV:
                 "cam_mtx": mtx,
                 "kc": dist.T[0],
                 "rotation": np.array(rvecs),
-                "translate": tvecs,
+                "translate": np.array(tvecs),
                 "zs": np.array(zs),
             }
         )
-- 
2.43.0


From 2ac5d264c3a86db8c6dd8ab2417f6d2916c007e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:20 +0000
Subject: [PATCH 057/105] fix: SimpleCircleGrid.detect_grid: wrong order of the
 points when the origin is between multiples of the grid spacing

---
 src/fluidimage/calibration/calib_cv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/calibration/calib_cv.py b/src/fluidimage/calibration/calib_cv.py
index 88a6f65..79a5320 100644
--- a/src/fluidimage/calibration/calib_cv.py
+++ b/src/fluidimage/calibration/calib_cv.py
@@ -134,8 +134,8 @@ class SimpleCircleGrid:
                 center_list.append(k.pt)
 
         centers = np.array(center_list)
-        xround = np.round(centers[..., 0] / ds)
-        yround = np.round(centers[..., 1] / ds)
+        xround = np.round((centers[..., 0] - originx) / ds)
+        yround = np.round((centers[..., 1] - originy) / ds)
         # Sort as a grid
         ind = np.lexsort((xround, yround))
         # Add another dimension
-- 
2.43.0


From 7b271dd0c997f5035c03e7bd22ec1091986fa90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:11 +0000
Subject: [PATCH 058/105] fix: ArrayTomo: ymin replaced by zmin

---
 src/fluidimage/data_objects/tomo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/data_objects/tomo.py b/src/fluidimage/data_objects/tomo.py
index 92274a2..5e38e85 100644
--- a/src/fluidimage/data_objects/tomo.py
+++ b/src/fluidimage/data_objects/tomo.py
@@ -68,7 +68,7 @@ class ArrayTomoBase:
 
         self.xmin, self.xmax = xlims
         self.ymin, self.ymax = ylims
-        self.ymin, self.zmax = zlims
+        self.zmin, self.zmax = zlims
         self.nb_voxels = nb_voxels
         self.dtype = dtype
         if h5file_path is not None:
-- 
2.43.0


From 5819e4e2d6d590939d886121692cb7e25b273185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:11 +0000
Subject: [PATCH 059/105] fix: ArrayTomo.describe(vmin, vmax) raised ValueError
 (arrays which are not 2d)

---
 src/fluidimage/data_objects/tomo.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/fluidimage/data_objects/tomo.py b/src/fluidimage/data_objects/tomo.py
index 5e38e85..8c10434 100644
--- a/src/fluidimage/data_objects/tomo.py
+++ b/src/fluidimage/data_objects/tomo.py
@@ -100,11 +100,9 @@ class ArrayTomoBase:
         """Describe the voxel intensity array."""
         I = self.I
         if vmin is not None:
-            x, y = np.where(I < vmin)
-            print(f"No. of points below {vmin}={x.size}")
+            print(f"No. of points below {vmin}={np.count_nonzero(I < vmin)}")
         if vmax is not None:
-            x, y = np.where(I > vmax)
-            print(f"No. of points above {vmax}={x.size}")
+            print(f"No. of points above {vmax}={np.count_nonzero(I > vmax)}")
         string = (
             f" min={I.min()}\n max={I.max()}\n mean={I.mean()}\n median={np.median(I)}\n "
             f" std={I.std()}\n shape={I.shape}"
-- 
2.43.0


From e1c2ba81f00acf858b2cebb19283f1878090461f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:11 +0000
Subject: [PATCH 060/105] fix: ArrayTomoCV.plot_slices: the slices shown were
 not the slices of the volume

---
 src/fluidimage/data_objects/tomo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fluidimage/data_objects/tomo.py b/src/fluidimage/data_objects/tomo.py
index 8c10434..3b180ab 100644
--- a/src/fluidimage/data_objects/tomo.py
+++ b/src/fluidimage/data_objects/tomo.py
@@ -245,7 +245,8 @@ class ArrayTomoBase:
         I = self.I
         if I.ndim == 1:
             nx, ny, nz = map(len, (self.xs, self.ys, self.zs))
-            I = I.reshape((nx, ny, nz))
+            # the index of the flattened array varying the fastest is along x
+            I = I.reshape((nz, ny, nx)).transpose()
 
         if stop is None:
             stop = I.shape[2]
-- 
2.43.0


From dfde7b9fc806fcbdd6f992bea008d15ffa9932d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:55 +0000
Subject: [PATCH 061/105] fix: apply_function_to_spatiotemp_data: vx replaced
 by vy if the function returns a view of its argument

---
 src/fluidimage/postproc/vector_field.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fluidimage/postproc/vector_field.py b/src/fluidimage/postproc/vector_field.py
index 28b5c40..0933884 100644
--- a/src/fluidimage/postproc/vector_field.py
+++ b/src/fluidimage/postproc/vector_field.py
@@ -775,6 +775,8 @@ class ArrayOfVectorFieldsOnGrid:
         for it, piv in enumerate(self._list):
             fields[it, :, :] = piv.vx
         retvx = func(fields)
+        # new array since retvx can share its memory with fields
+        fields = np.empty_like(fields)
         for it, piv in enumerate(self._list):
             fields[it, :, :] = piv.vy
         retvy = func(fields)
-- 
2.43.0


From a4d8b413cab1096020dd99a505378bc8430a778e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:28 +0000
Subject: [PATCH 062/105] fix: apply_function_to_spatiotemp_data: wrong result
 for arrays containing several times the same field

---
 src/fluidimage/postproc/vector_field.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fluidimage/postproc/vector_field.py b/src/fluidimage/postproc/vector_field.py
index 0933884..4d88e6c 100644
--- a/src/fluidimage/postproc/vector_field.py
+++ b/src/fluidimage/postproc/vector_field.py
@@ -781,6 +781,8 @@ class ArrayOfVectorFieldsOnGrid:
             fields[it, :, :] = piv.vy
         retvy = func(fields)
         result = deepcopy(self)
+        # distinct objects even if self contains several times the same object
+        result._list = [deepcopy(v) for v in self._list]
         for it, v in enumerate(result):
             v.vx = retvx[it]
             v.vy = retvy[it]
-- 
2.43.0


From 1155b060e4957f0e662ce0635d511a32a955d15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:14 +0000
Subject: [PATCH 063/105] fix: limits of the volume for the tomographic data
 loaded from a file (default values)

---
 src/fluidimage/data_objects/tomo.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fluidimage/data_objects/tomo.py b/src/fluidimage/data_objects/tomo.py
index 3b180ab..d3abb62 100644
--- a/src/fluidimage/data_objects/tomo.py
+++ b/src/fluidimage/data_objects/tomo.py
@@ -136,6 +136,11 @@ class ArrayTomoBase:
             for attr in self._attrs_to_save:
                 setattr(self, attr, grp.attrs[attr])
 
+        self.xmin, self.xmax = self.xs[0], self.xs[-1]
+        self.ymin, self.ymax = self.ys[0], self.ys[-1]
+        self.zmin, self.zmax = self.zs[0], self.zs[-1]
+        self.nb_voxels = (self.nx, self.ny, self.nz)
+
     def load_dataset(self, h5file_path=None, tag="tomo", key="I", copy=False):
         if h5file_path is None:
             if copy:
-- 
2.43.0


From a5f46db4dceda3d8e0de4f89ab5baa5f1154e782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:14 +0000
Subject: [PATCH 064/105] fix: ArrayTomo.clear for arrays without file
 (AttributeError)

---
 src/fluidimage/data_objects/tomo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fluidimage/data_objects/tomo.py b/src/fluidimage/data_objects/tomo.py
index d3abb62..bde487c 100644
--- a/src/fluidimage/data_objects/tomo.py
+++ b/src/fluidimage/data_objects/tomo.py
@@ -119,7 +119,8 @@ class ArrayTomoBase:
             self.I[:] = 1
         else:
             print(f"Warning: Not clearing I of type {type(self.I)}")
-        if os.path.exists(self.h5file_path):
+        # no path for an array which is only in memory
+        if hasattr(self, "h5file_path") and os.path.exists(self.h5file_path):
             print(f"rm {self.h5file_path}")
             os.remove(self.h5file_path)
 
-- 
2.43.0


From 7dbfb2876832ab7752d5bcedae81e1417974f477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 065/105] fix: name of PIV results for couples of images which
 are not consecutive (i:i+4:2)

---
 src/fluidimage/data_objects/piv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fluidimage/data_objects/piv.py b/src/fluidimage/data_objects/piv.py
index 623e43c..6b99be6 100644
--- a/src/fluidimage/data_objects/piv.py
+++ b/src/fluidimage/data_objects/piv.py
@@ -41,7 +41,8 @@ def get_name_piv(serie, prefix="piv"):
         index = inds[0]
         str_index = serie.get_str_for_name_from_idim_idx(idim, index)
         if len(inds) > 1:
-            last = serie.get_str_for_name_from_idim_idx(idim, inds[1] - 1)
+            # index of the last file (taking into account the step)
+            last = serie.get_str_for_name_from_idim_idx(idim, range(*inds)[-1])
             if last != str_index:
                 if str_index.isalpha() and len(str_index) == 1:
                     sep = ""
-- 
2.43.0


From b5d498501826059d57066d912241be97de326cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 066/105] fix: BOS: reference image processed for relative
 paths and other images not processed

---
 src/fluidimage/topologies/bos.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/fluidimage/topologies/bos.py b/src/fluidimage/topologies/bos.py
index 55d030e..8dbb3ae 100644
--- a/src/fluidimage/topologies/bos.py
+++ b/src/fluidimage/topologies/bos.py
@@ -177,23 +177,17 @@ class TopologyBOS(TopologyBaseFromImages):
     def _fix_indices_images(self, indices_images):
         """Fix the indices images in fill_queue_paths"""
 
-        if not self.path_reference.is_relative_to(self.serie.path_dir):
+        # the paths can be relative (or not) and the reference can be another file
+        # with the same indices
+        path_dir = Path(self.serie.path_dir).resolve()
+        if self.path_reference.parent.resolve() != path_dir:
             return
 
-        if not self.path_reference.name.startswith(self.serie.base_name):
-            return
-
-        try:
-            indices_ref = tuple(
-                self.serie.compute_indices_from_name(self.path_reference.name)
-            )
-        except ValueError:
-            return
-
-        try:
-            indices_images.remove(indices_ref)
-        except ValueError:
-            pass
+        for indices in indices_images:
+            name = self.serie.compute_name_from_indices(*indices)
+            if name == self.path_reference.name:
+                indices_images.remove(indices)
+                break
 
     def make_text_at_exit(self, time_since_start):
         """Make a text printed at exit"""
-- 
2.43.0


From ebf9e96df4ea5e45157fe5ac2a8a36ced5337350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 067/105] fix: LogTopology: UnboundLocalError or AttributeError
 for the log of a computation just started

---
 src/fluidimage/topologies/log.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fluidimage/topologies/log.py b/src/fluidimage/topologies/log.py
index e32b754..52403d5 100644
--- a/src/fluidimage/topologies/log.py
+++ b/src/fluidimage/topologies/log.py
@@ -38,6 +38,10 @@ class DataLogFile:
         self.topology_name = None
         self._title = str(path_file)
 
+        # can be unknown (file being written)
+        self.mem_start = mem = np.nan
+        time_start = np.nan
+
         print(f"Parsing log file: {path_file}")
         with open(path_file, "r", encoding="utf-8") as logfile:
             for iline, line in enumerate(logfile):
-- 
2.43.0


From 3644ac477d4de6f0473ace39338111314015d27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 068/105] fix: LogTopology: wrong data or ValueError for keys
 with spaces and lines with a text written by another thread

---
 src/fluidimage/topologies/log.py | 79 ++++++++++++++++----------------
 1 file changed, 40 insertions(+), 39 deletions(-)

diff --git a/src/fluidimage/topologies/log.py b/src/fluidimage/topologies/log.py
index 52403d5..6935ab3 100644
--- a/src/fluidimage/topologies/log.py
+++ b/src/fluidimage/topologies/log.py
@@ -7,6 +7,7 @@
 
 """
 
+import re
 import time
 from pathlib import Path
 
@@ -73,33 +74,36 @@ class DataLogFile:
                     if line.startswith(begin):
                         self.executor_name = line.split(begin)[1].strip()
 
-                if ". mem usage: " in line:
-                    # to remove the characters coding for color
-                    line = line[5:]
-                    words = line.split()
-
-                    try:
-                        mem = float(words[-2])
-                    except ValueError:
-                        pass
-
-                    if ". Launch work " in line:
-                        name = words[4]
-                        key = words[5][1:-2]
-                        t = float(words[0])
-                        works.append(
-                            {
-                                "name": name,
-                                "key": key,
-                                "mem_start": mem,
-                                "time": t,
-                            }
-                        )
-                    else:
-                        date = words[0][:-1]
-                        t = time.mktime(
-                            time.strptime(date[:-3], "%Y-%m-%d_%H-%M-%S")
-                        ) + float(date[-3:])
+                # search (and not match) since a text written by another thread
+                # can be at the beginning of the line
+                match_mem = re.search(r"\. mem usage: +(\d+\.\d+) Mb", line)
+                if match_mem:
+                    mem = float(match_mem.group(1))
+
+                match = re.search(
+                    r"(\d+\.\d+) s\. Launch work (\S+) \((.*)\)\. mem usage: ", line
+                )
+                if match:
+                    works.append(
+                        {
+                            "name": match.group(2),
+                            "key": match.group(3),
+                            "mem_start": mem,
+                            "time": float(match.group(1)),
+                        }
+                    )
+                    continue
+
+                match = re.search(
+                    r"(\d{4}-\d\d-\d\d_\d\d-\d\d-\d\d)(\.\d+): (starting execution|"
+                    r"end of `compute`)\. mem usage: ",
+                    line,
+                )
+                if match:
+                    date = match.group(1) + match.group(2)
+                    t = time.mktime(
+                        time.strptime(match.group(1), "%Y-%m-%d_%H-%M-%S")
+                    ) + float(match.group(2))
 
                     if ": starting execution. mem usage" in line:
                         self.date_start = date
@@ -110,18 +114,15 @@ class DataLogFile:
                         self.duration = t - time_start
                         self.mem_end = mem
 
-                if line.startswith("work ") and " done in " in line:
-                    words = line.split()
-                    name = words[1]
-                    key = words[2][1:-1]
-                    try:
-                        duration = float(words[-2])
-                    except ValueError:
-                        pass
-                    else:
-                        works_ended.append(
-                            {"name": name, "key": key, "duration": duration}
-                        )
+                match = re.search(r"work (\S+) \((.*)\) done in (\d+\.\d+) s$", line)
+                if match:
+                    works_ended.append(
+                        {
+                            "name": match.group(1),
+                            "key": match.group(2),
+                            "duration": float(match.group(3)),
+                        }
+                    )
 
         print("\rdone" + 20 * " ")
 
-- 
2.43.0


From f8ec1e91feeca68b87a08b46f0432f9fddde8745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 069/105] fix: LogTopology: durations of the works done several
 times with the same key

---
 src/fluidimage/topologies/log.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/fluidimage/topologies/log.py b/src/fluidimage/topologies/log.py
index 6935ab3..763645d 100644
--- a/src/fluidimage/topologies/log.py
+++ b/src/fluidimage/topologies/log.py
@@ -203,22 +203,18 @@ class LogTopology:
             works_ended_name = [
                 work for work in self.works_ended if work["name"] == name
             ]
-            index_vs_keys = {
-                work["key"]: index for index, work in enumerate(works_ended_name)
-            }
+            # a work can be done several times with the same key
+            durations_vs_keys = {}
+            for work in works_ended_name:
+                durations_vs_keys.setdefault(work["key"], []).append(
+                    work["duration"]
+                )
 
             durations[name] = []
             for key in keys[name]:
-                try:
-                    index_key = index_vs_keys[key]
-                except KeyError:
-                    founded = False
+                if durations_vs_keys.get(key):
+                    durations[name].append(durations_vs_keys[key].pop(0))
                 else:
-                    founded = True
-                    work = works_ended_name[index_key]
-                    durations[name].append(work["duration"])
-
-                if not founded:
                     durations[name].append(np.nan)
 
     def plot_memory(self):
-- 
2.43.0


From a4901ef3099b8de28042700e8d991c07ed97dbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 070/105] fix: LogTopology.plot_nb_workers: KeyError with
 str_names

---
 src/fluidimage/topologies/log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/topologies/log.py b/src/fluidimage/topologies/log.py
index 763645d..ad44096 100644
--- a/src/fluidimage/topologies/log.py
+++ b/src/fluidimage/topologies/log.py
@@ -307,7 +307,7 @@ class LogTopology:
 
         lines = []
 
-        for i, name in enumerate(self.names_works):
+        for i, name in enumerate(names):
             (l,) = ax.plot(times[name], nb_workers[name], f"C{i}-")
             lines.append(l)
 
-- 
2.43.0


From 129940fe2c8298cd4e1356b86cd352b9e00a9c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 071/105] fix: lines written several times in the log by the
 executors forking processes

---
 src/fluidimage/executors/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fluidimage/executors/base.py b/src/fluidimage/executors/base.py
index 2542989..91b86cf 100644
--- a/src/fluidimage/executors/base.py
+++ b/src/fluidimage/executors/base.py
@@ -131,7 +131,8 @@ class ExecutorBase(ABC):
         self._init_log_path()
         if path_log is not None:
             self._log_path = path_log
-        self._log_file = open(self._log_path, "w", encoding="utf-8")
+        # buffering=1 (line buffering) so that no line is written twice by forks
+        self._log_file = open(self._log_path, "w", buffering=1, encoding="utf-8")
 
         stdout = sys.stdout
         if isinstance(stdout, MultiFile):
-- 
2.43.0


From 386cfbed72cc8c4f1028474026aa4760e8c8e34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:32 +0000
Subject: [PATCH 072/105] fix: LogTopology: IndexError or wrong values for a
 line being written

---
 src/fluidimage/topologies/log.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fluidimage/topologies/log.py b/src/fluidimage/topologies/log.py
index ad44096..566f871 100644
--- a/src/fluidimage/topologies/log.py
+++ b/src/fluidimage/topologies/log.py
@@ -49,6 +49,10 @@ class DataLogFile:
                 if iline % 100 == 0:
                     print(f"\rparse line {iline}", end="", flush=True)
 
+                if not line.endswith("\n"):
+                    # line being written
+                    break
+
                 if line.startswith("ERROR: "):
                     continue
 
-- 
2.43.0


From b60cca9fb5752385929f23bd0751399070b3613f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:56 +0000
Subject: [PATCH 073/105] fix: sliding and temporal preprocessing tools with
 weight=1 (negative values of integer images wrapped)

---
 src/fluidimage/works/preproc/_toolbox_cv.py |  4 ++--
 src/fluidimage/works/preproc/_toolbox_py.py | 12 ++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/fluidimage/works/preproc/_toolbox_cv.py b/src/fluidimage/works/preproc/_toolbox_cv.py
index d7fa7cd..91b2ed0 100644
--- a/src/fluidimage/works/preproc/_toolbox_cv.py
+++ b/src/fluidimage/works/preproc/_toolbox_cv.py
@@ -46,7 +46,7 @@ def sliding_median(img=None, weight=1.0, window_size=3):
 
     """
     try:
-        img_out = img - weight * cv2.medianBlur(
+        img_out = img - float(weight) * cv2.medianBlur(
             img.astype(np.uint8), int(window_size)
         )
     except:
@@ -86,7 +86,7 @@ def sliding_minima(
     """
     kernel = np.ones((window_size, window_size), np.uint8)
     border = getattr(cv2, f"BORDER_{boundary_condition.upper()}")
-    img_out = img - weight * cv2.erode(
+    img_out = img - float(weight) * cv2.erode(
         img.astype(np.uint8), kernel=kernel, borderType=border
     )
     return img_out
diff --git a/src/fluidimage/works/preproc/_toolbox_py.py b/src/fluidimage/works/preproc/_toolbox_py.py
index 9cf3132..b781a34 100644
--- a/src/fluidimage/works/preproc/_toolbox_py.py
+++ b/src/fluidimage/works/preproc/_toolbox_py.py
@@ -84,7 +84,7 @@ def sliding_median(
         Mode of handling array borders.
 
     """
-    img_out = img - weight * ndi.median_filter(
+    img_out = img - float(weight) * ndi.median_filter(
         img, size=window_size, mode=boundary_condition
     )
     img_out[img_out < 0] = 0
@@ -119,7 +119,7 @@ def sliding_percentile(
         Mode of handling array borders.
 
     """
-    img_out = img - weight * ndi.percentile_filter(
+    img_out = img - float(weight) * ndi.percentile_filter(
         img, percentile, size=window_size, mode=boundary_condition
     )
     img_out[img_out < 0] = 0
@@ -148,7 +148,7 @@ def sliding_minima(
         Mode of handling array borders.
 
     """
-    img_out = img - weight * ndi.minimum_filter(
+    img_out = img - float(weight) * ndi.minimum_filter(
         img, size=window_size, mode=boundary_condition
     )
     img_out[img_out < 0] = 0
@@ -204,7 +204,7 @@ def temporal_median(img=None, weight=1.0, window_shape=None):
     """
     window_shape = _calcul_windowshape(img.shape, window_shape)
 
-    img_out = img - weight * ndi.median_filter(img, size=window_shape)
+    img_out = img - float(weight) * ndi.median_filter(img, size=window_shape)
     return img_out
 
 
@@ -230,7 +230,7 @@ def temporal_percentile(img=None, percentile=10.0, weight=1.0, window_shape=None
     """
     window_shape = _calcul_windowshape(img.shape, window_shape)
 
-    img_out = img - weight * ndi.percentile_filter(
+    img_out = img - float(weight) * ndi.percentile_filter(
         img, percentile, size=window_shape
     )
     return img_out
@@ -252,7 +252,7 @@ def temporal_minima(img=None, weight=1.0, window_shape=None):
 
     """
     window_shape = _calcul_windowshape(img.shape, window_shape)
-    img_out = img - weight * ndi.minimum_filter(img, size=window_shape)
+    img_out = img - float(weight) * ndi.minimum_filter(img, size=window_shape)
     return img_out
 
 
-- 
2.43.0


From b1c7bc52ee510fde0b5aaae208656ec876b34773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:56 +0000
Subject: [PATCH 074/105] fix: rescale_intensity_tanh: threshold for images of
 integers (overflow) and black images (nan)

---
 src/fluidimage/works/preproc/_toolbox_py.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/works/preproc/_toolbox_py.py b/src/fluidimage/works/preproc/_toolbox_py.py
index b781a34..af1bff0 100644
--- a/src/fluidimage/works/preproc/_toolbox_py.py
+++ b/src/fluidimage/works/preproc/_toolbox_py.py
@@ -345,13 +345,18 @@ def rescale_intensity_tanh(img=None, threshold=None):
 
     """
     if threshold is None:
-        threshold = 2 * np.sqrt(np.mean(img**2))
+        # float needed to avoid overflows for images of integers
+        threshold = 2 * np.sqrt(np.mean(np.square(img, dtype=float)))
 
     if threshold == 0:
         return img
 
     img_out = np.tanh(img / threshold)
-    img_out = np.floor(np.max(img) / np.max(img_out) * img_out)
+    max_img_out = np.max(img_out)
+    if max_img_out == 0:
+        return img
+
+    img_out = np.floor(np.max(img) / max_img_out * img_out)
     return img_out
 
 
-- 
2.43.0


From 82f07ab491d167c094ab6a40847169737f53821a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:56 +0000
Subject: [PATCH 075/105] fix: preprocessing tool sharpen with images of
 integers (roundings and negative values wrapped)

---
 src/fluidimage/works/preproc/_toolbox_py.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fluidimage/works/preproc/_toolbox_py.py b/src/fluidimage/works/preproc/_toolbox_py.py
index af1bff0..12c8754 100644
--- a/src/fluidimage/works/preproc/_toolbox_py.py
+++ b/src/fluidimage/works/preproc/_toolbox_py.py
@@ -488,7 +488,8 @@ def sharpen(img=None, sigma1=3.0, sigma2=1.0, alpha=30.0):
         Factor by which the image will be sharpened
 
     """
-    blurred = ndi.gaussian_filter(img, sigma1)
+    # float needed to avoid roundings and overflows for images of integers
+    blurred = ndi.gaussian_filter(np.asarray(img, dtype=float), sigma1)
     filter_blurred = ndi.gaussian_filter(blurred, sigma2)
 
     img_out = blurred + alpha * (blurred - filter_blurred)
-- 
2.43.0


From 477d24f2eea00cd667c695034f857d83b88937e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:56 +0000
Subject: [PATCH 076/105] fix: temporal preprocessing tools with
 window_shape=[ny, nx] (TypeError)

---
 src/fluidimage/works/preproc/_toolbox_py.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/works/preproc/_toolbox_py.py b/src/fluidimage/works/preproc/_toolbox_py.py
index 12c8754..dc2c737 100644
--- a/src/fluidimage/works/preproc/_toolbox_py.py
+++ b/src/fluidimage/works/preproc/_toolbox_py.py
@@ -176,7 +176,7 @@ def _calcul_windowshape(arr_shape, window_shape):
         raise ValueError("window_shape must be a tuple or a list.")
 
     elif len(window_shape) == 2:
-        window_shape = (nb_imgs,) + window_shape
+        window_shape = (nb_imgs,) + tuple(window_shape)
     elif window_shape[0] <= 1:
         raise ValueError(
             "Cannot perform temporal filtering, try spatial filtering."
-- 
2.43.0


From fab4f01e485cd3862167b9c73aff82ed35478418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:25 +0000
Subject: [PATCH 077/105] fix: global_threshold with limits not representable
 with the type of the image (OverflowError)

---
 src/fluidimage/works/preproc/_toolbox_py.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fluidimage/works/preproc/_toolbox_py.py b/src/fluidimage/works/preproc/_toolbox_py.py
index dc2c737..56930bb 100644
--- a/src/fluidimage/works/preproc/_toolbox_py.py
+++ b/src/fluidimage/works/preproc/_toolbox_py.py
@@ -284,6 +284,11 @@ def global_threshold(img=None, minima=0, maxima=None):
             maxima = 65535
         else:
             maxima = info.max
+    if np.issubdtype(img_out.dtype, np.integer):
+        # limits have to be representable with the type of the image
+        info = np.iinfo(img_out.dtype)
+        minima = min(max(minima, info.min), info.max)
+        maxima = min(max(maxima, info.min), info.max)
     img_out[img_out < minima] = minima
     img_out[img_out > maxima] = maxima
     return img_out
-- 
2.43.0


From cd36294150b5c6d9112d0d5225148d8a41cc1dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:25 +0000
Subject: [PATCH 078/105] fix: sliding tools of the opencv backend with images
 which are not uint8 (values modulo 256)

---
 src/fluidimage/works/preproc/_toolbox_cv.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/fluidimage/works/preproc/_toolbox_cv.py b/src/fluidimage/works/preproc/_toolbox_cv.py
index 91b2ed0..a27400d 100644
--- a/src/fluidimage/works/preproc/_toolbox_cv.py
+++ b/src/fluidimage/works/preproc/_toolbox_cv.py
@@ -11,6 +11,7 @@ Provides:
 """
 
 import numpy as np
+import scipy.ndimage as ndi
 
 from fluidimage._opencv import cv2
 
@@ -28,6 +29,18 @@ __all__ = [
 # ----------------------------------------------------
 
 
+def _median_blur(img, window_size):
+    """Median filter without loss of precision for types other than uint8"""
+    if img.dtype == np.uint8:
+        return cv2.medianBlur(img, window_size)
+    if window_size <= 5:
+        if img.dtype != np.uint16:
+            img = img.astype(np.float32)
+        return cv2.medianBlur(img, window_size)
+    # not supported by OpenCV
+    return ndi.median_filter(img, size=window_size, mode="nearest")
+
+
 @iterate_multiple_imgs
 def sliding_median(img=None, weight=1.0, window_size=3):
     """
@@ -46,9 +59,7 @@ def sliding_median(img=None, weight=1.0, window_size=3):
 
     """
     try:
-        img_out = img - float(weight) * cv2.medianBlur(
-            img.astype(np.uint8), int(window_size)
-        )
+        img_out = img - float(weight) * _median_blur(img, int(window_size))
     except:
         print(
             "Check img dtype={}, shape={}, and window_size={}".format(
@@ -86,8 +97,10 @@ def sliding_minima(
     """
     kernel = np.ones((window_size, window_size), np.uint8)
     border = getattr(cv2, f"BORDER_{boundary_condition.upper()}")
+    if img.dtype not in (np.uint8, np.uint16, np.float32, np.float64):
+        img = img.astype(np.float64)
     img_out = img - float(weight) * cv2.erode(
-        img.astype(np.uint8), kernel=kernel, borderType=border
+        img, kernel=kernel, borderType=border
     )
     return img_out
 
-- 
2.43.0


From 29b561b8822365b946517604254569e244d0f533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:25 +0000
Subject: [PATCH 079/105] fix: negative values in preprocessed images saved as
 bright pixels

---
 src/fluidimage/data_objects/preproc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fluidimage/data_objects/preproc.py b/src/fluidimage/data_objects/preproc.py
index 8d468b8..6e0f951 100644
--- a/src/fluidimage/data_objects/preproc.py
+++ b/src/fluidimage/data_objects/preproc.py
@@ -15,6 +15,7 @@ import math
 import os
 
 import h5py
+import numpy as np
 
 from fluiddyn.util.serieofarrays import SerieOfArraysFromFiles
 from fluidimage.util import atomic_saving, imsave, imsave_h5
@@ -155,6 +156,8 @@ class PreprocResults(LightPIVResults):
         out_format = self.params.saving.format
         for k, v in self.data.items():
             path_file = os.path.join(path, k)
+            # negative values (not representable) would be saved as bright pixels
+            v = np.maximum(v, 0)
             with atomic_saving(path_file) as path_tmp:
                 if out_format == "img":
                     imsave(path_tmp, v, as_int=True)
-- 
2.43.0


From d22d680edd7fc54a6a046f1ba376703cdf6dbe6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:57 +0000
Subject: [PATCH 080/105] fix: monitor of a computation with additional
 parameters

---
 src/fluidimage/gui/monitor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fluidimage/gui/monitor.py b/src/fluidimage/gui/monitor.py
index 301eaf9..2d8073b 100644
--- a/src/fluidimage/gui/monitor.py
+++ b/src/fluidimage/gui/monitor.py
@@ -51,7 +51,9 @@ def copy_doc(params_node, params_node_with_doc):
     params_node._set_doc(params_node_with_doc._doc)
 
     for tag in params_node._tag_children:
-        copy_doc(params_node[tag], params_node_with_doc[tag])
+        # the user can add children (for example compute_kwargs)
+        if tag in params_node_with_doc._tag_children:
+            copy_doc(params_node[tag], params_node_with_doc[tag])
 
 
 class MonitorApp(App):
-- 
2.43.0


From a82925a2de581ad850df6a3c1b27c47d791444c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:57 +0000
Subject: [PATCH 081/105] fix: monitor started before the first results or
 while they are being saved

---
 src/fluidimage/gui/monitor.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/fluidimage/gui/monitor.py b/src/fluidimage/gui/monitor.py
index 2d8073b..8dbce11 100644
--- a/src/fluidimage/gui/monitor.py
+++ b/src/fluidimage/gui/monitor.py
@@ -125,7 +125,12 @@ class MonitorApp(App):
             return
 
         try:
-            self.path_job_info = sorted(self.path_results.glob("job_*"))[-1]
+            # the file info.xml is the last one written when a job starts
+            self.path_job_info = [
+                path.parent
+                for path in sorted(self.path_results.glob("job_*/info.xml"))
+                if path.stat().st_size
+            ][-1]
         except IndexError:
             print("No job info folder found.")
             self.exit(0)
@@ -154,23 +159,20 @@ class MonitorApp(App):
         params_default = class_topology.create_default_params()
         copy_doc(self.params, params_default)
 
-        self.paths_len_results = sorted(
-            self.path_job_info.glob("len_results*.txt")
-        )
-        assert self.paths_len_results
-
+        self.num_results_vs_name = {}
         self.num_results = 0
         self.detect_results()
 
     def detect_results(self):
         """Detect how many results have been computed"""
-        num_results_vs_idx_process = []
-        for path_len_results in self.paths_len_results:
+        # these files can be created after the start of the monitor
+        for path_len_results in self.path_job_info.glob("len_results*.txt"):
             with open(path_len_results, encoding="utf-8") as file:
                 content = file.read()
-                len_results = int(content) if content else 0
-                num_results_vs_idx_process.append(len_results)
-        self.num_results = sum(num_results_vs_idx_process)
+            # empty if the file is being written
+            if content:
+                self.num_results_vs_name[path_len_results.name] = int(content)
+        self.num_results = sum(self.num_results_vs_name.values())
 
     def check_is_running(self):
         """Check if the executor is running"""
-- 
2.43.0


From 57dfacf9e8a1318402ec553f3f76117ef5df298e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:57 +0000
Subject: [PATCH 082/105] fix: state shown by the monitor when the computation
 ends

---
 src/fluidimage/gui/monitor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fluidimage/gui/monitor.py b/src/fluidimage/gui/monitor.py
index 8dbce11..44b415b 100644
--- a/src/fluidimage/gui/monitor.py
+++ b/src/fluidimage/gui/monitor.py
@@ -263,11 +263,13 @@ class MonitorApp(App):
 
     def update_info(self):
         """Update the 'info' panel"""
+        # first, so that what is read after the end is the final state
+        self.check_is_running()
         self.detect_results()
         self.progress_bar.progress = self.num_results
         self.digit_num_results.update(f"{self.num_results}")
         self.label_times.update(self.compute_times_str())
-        if not self.check_is_running():
+        if not self.job_is_running:
             self.timer_update_info.pause()
             self.label_is_running.update(f"Running: {self.job_is_running}")
 
-- 
2.43.0


From ca77221a9abe29467853ed38eb1ea6af906683f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:57 +0000
Subject: [PATCH 083/105] fix: end time written before the lock is released

---
 src/fluidimage/executors/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/executors/base.py b/src/fluidimage/executors/base.py
index 91b86cf..bd3ba1e 100644
--- a/src/fluidimage/executors/base.py
+++ b/src/fluidimage/executors/base.py
@@ -260,10 +260,10 @@ class ExecutorBase(ABC):
 
     def _release_lock(self):
         if self._path_lockfile.exists():
-            self._path_lockfile.unlink(missing_ok=True)
             t_as_str = time_as_str()
             path_end_time = self._path_lockfile.with_name("time_end.txt")
             path_end_time.write_text(f"{t_as_str}\n")
+            self._path_lockfile.unlink(missing_ok=True)
 
     def _save_job_data(self):
         self.path_job_data = self.path_dir_result / f"job_{self._unique_postfix}"
-- 
2.43.0


From acc1a408fbda6a23819559cb83dc212f5ef933f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:14 +0000
Subject: [PATCH 084/105] fix: monitor used while the end time is being written

---
 src/fluidimage/gui/monitor.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/fluidimage/gui/monitor.py b/src/fluidimage/gui/monitor.py
index 44b415b..40faaec 100644
--- a/src/fluidimage/gui/monitor.py
+++ b/src/fluidimage/gui/monitor.py
@@ -279,12 +279,15 @@ class MonitorApp(App):
             return self.time_end
 
         if self.path_time_end.exists():
-            self.time_end = datetime.strptime(
-                self.path_time_end.read_text().strip(), "%Y-%m-%d_%H-%M-%S"
-            )
-            return self.time_end
-        else:
-            return datetime.now()
+            time_end_str = self.path_time_end.read_text().strip()
+            # empty if the file is being written
+            if time_end_str:
+                self.time_end = datetime.strptime(
+                    time_end_str, "%Y-%m-%d_%H-%M-%S"
+                )
+                return self.time_end
+
+        return datetime.now()
 
     def compute_times_str(self):
         """Compute the string used for the label 'label_times'"""
-- 
2.43.0


From b0fc1a4747ab2e5d5b8487170c16a663fcf0ff44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:34 +0000
Subject: [PATCH 085/105] fix: results of the asynchronous executors not
 recorded in the job directory

---
 src/fluidimage/executors/exec_async.py        | 26 ++++++++++++++++++-
 .../executors/exec_async_servers.py           |  7 ++++-
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/executors/exec_async.py b/src/fluidimage/executors/exec_async.py
index d314dc1..5f624e9 100644
--- a/src/fluidimage/executors/exec_async.py
+++ b/src/fluidimage/executors/exec_async.py
@@ -93,9 +93,31 @@ class ExecutorAsync(ExecutorBase):
 
         self._init_compute()
         self.exec_one_shot_works()
-        trio.run(self.start_async_works)
+        try:
+            trio.run(self.start_async_works)
+        finally:
+            self._save_new_results_names()
         self._finalize_compute()
 
+    def _save_job_data(self):
+        super()._save_job_data()
+        if hasattr(self.topology, "results"):
+            self._init_results_log(self.path_job_data)
+            self._save_results_names()
+
+    def _finalize_compute(self):
+        self._run_final_seq_work()
+        self._save_new_results_names()
+        super()._finalize_compute()
+
+    def _save_new_results_names(self):
+        """Save the names of the new results (if there are some)"""
+        if (
+            hasattr(self, "_path_results")
+            and len(self.topology.results) > self._len_saved_results
+        ):
+            self._save_results_names()
+
     async def start_async_works(self):
         """Create a trio nursery and start all async functions."""
         async with trio.open_nursery() as self.nursery:
@@ -322,6 +344,8 @@ class ExecutorAsync(ExecutorBase):
         """
 
         while not self._has_to_stop:
+            self._save_new_results_names()
+
             result = (
                 (not any([bool(queue) for queue in self.topology.queues]))
                 and self.nb_working_workers_cpu == 0
diff --git a/src/fluidimage/executors/exec_async_servers.py b/src/fluidimage/executors/exec_async_servers.py
index cbb4bc7..a0abf20 100644
--- a/src/fluidimage/executors/exec_async_servers.py
+++ b/src/fluidimage/executors/exec_async_servers.py
@@ -115,7 +115,10 @@ class ExecutorAsyncServers(ExecutorAsync):
         for worker in self.workers:
             worker.send(("__t_start__", self.t_start))
         self.exec_one_shot_works()
-        trio.run(self.start_async_works)
+        try:
+            trio.run(self.start_async_works)
+        finally:
+            self._save_new_results_names()
         self._finalize_compute()
 
     async def start_async_works(self):
@@ -139,6 +142,8 @@ class ExecutorAsyncServers(ExecutorAsync):
         """
 
         while not self._has_to_stop:
+            self._save_new_results_names()
+
             result = (
                 (not any([bool(queue) for queue in self.topology.queues]))
                 and all(worker.is_unoccupied for worker in self.workers)
-- 
2.43.0


From 96a9cc2e71bc7b751a3423b963e075e708de9174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:08 +0000
Subject: [PATCH 086/105] fix: number of expected results for BOS with
 subprocesses

---
 src/fluidimage/topologies/bos.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fluidimage/topologies/bos.py b/src/fluidimage/topologies/bos.py
index 8dbb3ae..14cae55 100644
--- a/src/fluidimage/topologies/bos.py
+++ b/src/fluidimage/topologies/bos.py
@@ -31,6 +31,12 @@ class SplitterBos(SplitterFromImages):
         )
         self.params.reference = topology.path_reference
 
+        if self.ranges is not None:
+            # no result for the reference
+            indices_images = list(topology.serie.iter_indices())
+            topology._fix_indices_images(indices_images)
+            self.num_expected_results = len(indices_images)
+
 
 def _imread(path):
     image = imread(path)
-- 
2.43.0


From 4757a5a2badbea773820f755ad3c410c9d1421b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:43 +0000
Subject: [PATCH 087/105] fix: results still being recorded after the end of a
 sequential computation

---
 src/fluidimage/executors/exec_async_seq_for_multi.py | 3 +++
 src/fluidimage/executors/exec_sequential.py          | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fluidimage/executors/exec_async_seq_for_multi.py b/src/fluidimage/executors/exec_async_seq_for_multi.py
index 4b629a7..0e119cc 100644
--- a/src/fluidimage/executors/exec_async_seq_for_multi.py
+++ b/src/fluidimage/executors/exec_async_seq_for_multi.py
@@ -97,6 +97,9 @@ class ExecutorAsyncSeqForMulti(ExecutorAsyncSequential):
     def _release_lock(self):
         """The lock file is managed by the main process"""
 
+    def _run_final_seq_work(self):
+        """The final sequential work is run by the main process"""
+
     async def _save_topology_results(self):
         while not self._has_to_stop:
             self._save_results_names()
diff --git a/src/fluidimage/executors/exec_sequential.py b/src/fluidimage/executors/exec_sequential.py
index eac54d2..93b5f28 100644
--- a/src/fluidimage/executors/exec_sequential.py
+++ b/src/fluidimage/executors/exec_sequential.py
@@ -20,10 +20,12 @@ class ExecutorSequential(ExecutorBase):
         self._init_compute()
         self.exec_one_shot_works()
         self._run_works()
-        self._finalize_compute()
+        self._run_final_seq_work()
         # num_expected_results == 0: nothing to do, the job has not been saved
         if hasattr(self.topology, "results") and self.num_expected_results != 0:
             self._save_results_names()
+        # has to be last: the lock is released
+        self._finalize_compute()
 
     def _run_works(self):
         while not all([len(queue) == 0 for queue in self.topology.queues]):
-- 
2.43.0


From 8f3cf7a2c5ac801dc095dacd8938a8db65e4bff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:03 +0000
Subject: [PATCH 088/105] fix: UVmat instructions with pairs "series(Dj)"

---
 src/fluidimage/uvmat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/uvmat.py b/src/fluidimage/uvmat.py
index 42608b2..ae26dd6 100644
--- a/src/fluidimage/uvmat.py
+++ b/src/fluidimage/uvmat.py
@@ -110,7 +110,7 @@ class ActionBase(ABC):
         elif pair_mode == "series(Dj)":
             if ir.first_i != ir.last_i:
                 raise NotImplementedError("ir.first_i != ir.last_i")
-            str_subset = "{ir.first_i},i:i+2:1"
+            str_subset = f"{ir.first_i},i:i+2:1"
         else:
             raise NotImplementedError(f"{pair_indices.list_pair_mode = }")
 
-- 
2.43.0


From 0002a4502124fb2bf273feb6f557398c8b21bd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:03 +0000
Subject: [PATCH 089/105] fix: default arguments of the topology launchers (no
 logging)

---
 src/fluidimage/topologies/launcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/topologies/launcher.py b/src/fluidimage/topologies/launcher.py
index 782d68c..36e4e81 100644
--- a/src/fluidimage/topologies/launcher.py
+++ b/src/fluidimage/topologies/launcher.py
@@ -31,7 +31,7 @@ def _get_args_bound_method(method):
 
     # key args without 'self' and 'params'
     key_args = arg_spec.args[2:]
-    defaults = arg_spec.defaults[1:]
+    defaults = arg_spec.defaults[-len(key_args) :]
     return key_args, defaults
 
 
-- 
2.43.0


From 54933283e057f634826e3eff24ec61a68fce6c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:11 +0000
Subject: [PATCH 090/105] fix: deadlock of the processes of exec_async_multi
 (fork with a locked file)

---
 .../executors/exec_async_multiproc.py         | 67 +++++++++----------
 1 file changed, 30 insertions(+), 37 deletions(-)

diff --git a/src/fluidimage/executors/exec_async_multiproc.py b/src/fluidimage/executors/exec_async_multiproc.py
index 9233217..3ee012d 100644
--- a/src/fluidimage/executors/exec_async_multiproc.py
+++ b/src/fluidimage/executors/exec_async_multiproc.py
@@ -71,39 +71,32 @@ class ExecutorAsyncMultiproc(ExecutorAsync):
         parent_conn, child_conn = Pipe()
         event = Event()
 
-        def run_process():
-            # we do this complicate thing because there may be a strange bug
-
-            def start_process_and_check(index_attempt):
-                process = Process(
-                    target=exec_work_and_comm,
-                    args=(work.func_or_cls, arg, child_conn, event),
-                )
-                process.daemon = True
-                process.start()
-                # check whether the process has really started (possible bug!)
-                if not event.wait(1):
-                    log_debug(
-                        f"problem: process {work.name_no_space} ({key}) "
-                        f"has not really started... (attempt {index_attempt})"
-                    )
-                    process.terminate()
-                    return False
-                return process
-
-            really_started = False
-            for index_attempt in range(10):
-                process = start_process_and_check(index_attempt)
-                if process:
-                    really_started = True
-                    break
-
-            if not really_started:
-                raise RuntimeError(
-                    f"A process {work.name_no_space} ({key}) "
-                    "has not started after 10 attempts"
-                )
+        # The processes have to be started by the main thread. With a fork in
+        # another thread, the lock of a file in which the main thread is writing
+        # (sys.stdout or the log file) would never be released in the process.
+        # we do this complicate thing because there may be a strange bug
+        for index_attempt in range(10):
+            process = Process(
+                target=exec_work_and_comm,
+                args=(work.func_or_cls, arg, child_conn, event),
+            )
+            process.daemon = True
+            process.start()
+            # check whether the process has really started (possible bug!)
+            if await trio.to_thread.run_sync(event.wait, 1):
+                break
+            log_debug(
+                f"problem: process {work.name_no_space} ({key}) "
+                f"has not really started... (attempt {index_attempt})"
+            )
+            process.terminate()
+        else:
+            raise RuntimeError(
+                f"A process {work.name_no_space} ({key}) "
+                "has not started after 10 attempts"
+            )
 
+        def wait_for_result():
             # todo: use parent_conn.poll to implement a timeout
 
             # log_debug(f"waiting for result ({key})")
@@ -111,13 +104,13 @@ class ExecutorAsyncMultiproc(ExecutorAsync):
             # log_debug(f"result ({key}) received")
 
             process.join(10 * self.sleep_time)
-            if process.exitcode != 0:
-                logger.error("process.exitcode: %s", process.exitcode)
-                process.terminate()
-
             return result
 
-        ret = await trio.to_thread.run_sync(run_process)
+        ret = await trio.to_thread.run_sync(wait_for_result)
+
+        if process.exitcode != 0:
+            logger.error("process.exitcode: %s", process.exitcode)
+            process.terminate()
 
         if isinstance(ret, Exception):
             self.log_exception(ret, work.name_no_space, key)
-- 
2.43.0


From b1de55cdbd013743aa757563d9f86b82e7abb97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:11 +0000
Subject: [PATCH 091/105] fix: computation with exec_async_multi never ending
 when a process dies

---
 src/fluidimage/executors/exec_async_multiproc.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/fluidimage/executors/exec_async_multiproc.py b/src/fluidimage/executors/exec_async_multiproc.py
index 3ee012d..55b4a66 100644
--- a/src/fluidimage/executors/exec_async_multiproc.py
+++ b/src/fluidimage/executors/exec_async_multiproc.py
@@ -96,11 +96,19 @@ class ExecutorAsyncMultiproc(ExecutorAsync):
                 "has not started after 10 attempts"
             )
 
+        # needed to be informed (EOFError) if the process dies
+        child_conn.close()
+
         def wait_for_result():
             # todo: use parent_conn.poll to implement a timeout
 
             # log_debug(f"waiting for result ({key})")
-            result = parent_conn.recv()
+            try:
+                result = parent_conn.recv()
+            except EOFError:
+                result = RuntimeError(
+                    f"process {work.name_no_space} ({key}) ended without result"
+                )
             # log_debug(f"result ({key}) received")
 
             process.join(10 * self.sleep_time)
-- 
2.43.0


From b7fd7ed5399eda1f2d03d60ff4189672fff52343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:02 +0000
Subject: [PATCH 092/105] fix: display without images changing the
 displacements of the results

---
 src/fluidimage/data_objects/display_piv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fluidimage/data_objects/display_piv.py b/src/fluidimage/data_objects/display_piv.py
index d559671..e6f9295 100644
--- a/src/fluidimage/data_objects/display_piv.py
+++ b/src/fluidimage/data_objects/display_piv.py
@@ -152,7 +152,8 @@ class DisplayPIV:
                 ys = piv_results.ys
 
             if im0 is None:
-                deltays *= -1
+                # the y axis is not inverted without image
+                deltays = -deltays
 
             self.q = ax0.quiver(
                 xs,
-- 
2.43.0


From 74fec5aa4ab9d79cdbfbce008579ae7f2e155d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:02 +0000
Subject: [PATCH 093/105] fix: point corresponding to no displacement in
 DisplayPIV (rectangular windows)

---
 src/fluidimage/data_objects/display_piv.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fluidimage/data_objects/display_piv.py b/src/fluidimage/data_objects/display_piv.py
index e6f9295..42c0316 100644
--- a/src/fluidimage/data_objects/display_piv.py
+++ b/src/fluidimage/data_objects/display_piv.py
@@ -348,9 +348,10 @@ class DisplayPIV:
 
             ax2.imshow(correl, origin="lower", interpolation="none", vmin=0)
 
+            i0_no_displ, i1_no_displ = result.indices_no_displacement
             ax2.plot(
-                result.indices_no_displacement[0],
-                result.indices_no_displacement[1],
+                i1_no_displ,
+                i0_no_displ,
                 "or",
                 mfc="none",
             )
@@ -423,7 +424,7 @@ class DisplayPIV:
 
             if params.piv0.displacement_max is not None:
                 circle = plt.Circle(
-                    result.indices_no_displacement,
+                    (i1_no_displ, i0_no_displ),
                     result.displacement_max,
                     color="b",
                     fill=False,
-- 
2.43.0


From 12bce35e4d77787ba4d01b50f7c6305b4c683e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:02 +0000
Subject: [PATCH 094/105] fix: selection of vectors in DisplayPIV (first one,
 alt+left, alt+right, no errors shown)

---
 src/fluidimage/data_objects/display_piv.py | 24 ++++++++++++----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/fluidimage/data_objects/display_piv.py b/src/fluidimage/data_objects/display_piv.py
index 42c0316..03b814b 100644
--- a/src/fluidimage/data_objects/display_piv.py
+++ b/src/fluidimage/data_objects/display_piv.py
@@ -47,6 +47,7 @@ class DisplayPIV:
         ylim=None,
     ):
         self.piv_results = piv_results
+        self.q = self.q_wrong = self.q_isnan = None
 
         if (
             show_correl
@@ -237,7 +238,8 @@ class DisplayPIV:
             ax4.set_ylabel("histogram")
             plt.show()
 
-        self.ind = 0
+        # index of the selected vector (nothing selected at the beginning)
+        self.ind = -1
         fig.canvas.mpl_connect("pick_event", self.onpick)
         fig.canvas.mpl_connect("key_press_event", self.onclick)
 
@@ -256,16 +258,16 @@ class DisplayPIV:
             self.switch()
 
         if event.key == "alt+left":
-            self.select_arrow(self.ind - 1)
+            self.select_arrow(self.ind - 1, self.q)
 
         if event.key == "alt+right":
-            self.select_arrow(self.ind + 1)
+            self.select_arrow(self.ind + 1, self.q)
 
     def onpick(self, event):
-        if not (
-            event.artist == self.q
-            or event.artist == self.q_wrong
-            or event.artist == self.q_isnan
+        if event.artist is None or event.artist not in (
+            self.q,
+            self.q_wrong,
+            self.q_isnan,
         ):
             return True
 
@@ -276,10 +278,10 @@ class DisplayPIV:
         self.select_arrow(ind, event.artist)
 
     def select_arrow(self, ind, artist=None):
-        try:
+        if np.ndim(ind) > 0:
+            if len(ind) == 0:
+                return
             ind = ind[0]
-        except (TypeError, IndexError):
-            return
 
         if artist is None:
             print("artist is None")
@@ -315,7 +317,7 @@ class DisplayPIV:
         deltax = result.deltaxs[ind_all]
         deltay = result.deltays[ind_all]
 
-        if np.isnan(deltax):
+        if np.isnan(deltax) and hasattr(result, "deltaxs_wrong"):
             deltax = result.deltaxs_wrong[ind_all]
             deltay = result.deltays_wrong[ind_all]
 
-- 
2.43.0


From 17d738e7115f4f246e0cfadc78f42964c7c3809b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:25 +0000
Subject: [PATCH 095/105] fix: DisplayPIV with the vectors interpolated on the
 grid of the next pass

---
 src/fluidimage/data_objects/display_piv.py | 39 +++++++++++++++++++---
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/src/fluidimage/data_objects/display_piv.py b/src/fluidimage/data_objects/display_piv.py
index 03b814b..f4d0027 100644
--- a/src/fluidimage/data_objects/display_piv.py
+++ b/src/fluidimage/data_objects/display_piv.py
@@ -48,6 +48,8 @@ class DisplayPIV:
     ):
         self.piv_results = piv_results
         self.q = self.q_wrong = self.q_isnan = None
+        # True if the vectors shown are on the grid of the next pass
+        self._vectors_next_pass = False
 
         if (
             show_correl
@@ -137,6 +139,7 @@ class DisplayPIV:
                     xs = piv_results.xs_smooth
                     ys = piv_results.ys_smooth
                 elif hasattr(piv_results, "deltaxs_approx"):
+                    self._vectors_next_pass = True
                     deltaxs = piv_results.deltaxs_approx
                     deltays = piv_results.deltays_approx
                     xs = piv_results.ixvecs_approx
@@ -152,6 +155,7 @@ class DisplayPIV:
                 xs = piv_results.xs
                 ys = piv_results.ys
 
+            self._deltaxs, self._deltays = deltaxs, deltays
             if im0 is None:
                 # the y axis is not inverted without image
                 deltays = -deltays
@@ -175,6 +179,9 @@ class DisplayPIV:
                 self.inds_error = inds_error = np.array(
                     list(piv_results.deltays_wrong.keys()), dtype=int
                 )
+                if self._vectors_next_pass:
+                    # the errors concern the vectors of this pass
+                    xs, ys = piv_results.xs, piv_results.ys
                 xs_wrong = xs[inds_error]
                 ys_wrong = ys[inds_error]
                 dxs_wrong = np.array(
@@ -240,6 +247,7 @@ class DisplayPIV:
 
         # index of the selected vector (nothing selected at the beginning)
         self.ind = -1
+        self._ind_interpolated = False
         fig.canvas.mpl_connect("pick_event", self.onpick)
         fig.canvas.mpl_connect("key_press_event", self.onclick)
 
@@ -305,15 +313,34 @@ class DisplayPIV:
         else:
             raise NotImplementedError("other artist" + str(artist))
 
-        if ind >= len(q.X) or ind < 0 or self.ind == ind_all:
+        if ind >= len(q.X) or ind < 0:
+            return
+
+        interpolated = self._vectors_next_pass and artist == self.q
+        if self.ind == ind_all and self._ind_interpolated == interpolated:
             return
 
         self.ind = ind_all
+        self._ind_interpolated = interpolated
 
         result = self.piv_results
 
         ix = q.X[ind]
         iy = q.Y[ind]
+
+        if interpolated:
+            # no correlation for this vector
+            self._show_point_and_text(
+                ix,
+                iy,
+                f"vector {ind} at ix = {ix} : iy = {iy} (interpolated)"
+                f" ; U = {self._deltaxs[ind]:.3f} ; V = {self._deltays[ind]:.3f}",
+            )
+            if self.show_correl:
+                self.ax1.cla()
+            self.fig.canvas.draw()
+            return
+
         deltax = result.deltaxs[ind_all]
         deltay = result.deltays[ind_all]
 
@@ -321,9 +348,6 @@ class DisplayPIV:
             deltax = result.deltaxs_wrong[ind_all]
             deltay = result.deltays_wrong[ind_all]
 
-        self._point.set_visible(True)
-        self._point.set_data([ix], [iy])
-
         text = (
             f"vector {ind_all} at ix = {ix} : iy = {iy}"
             f" ; U = {deltax:.3f} ; V = {deltay:.3f}"
@@ -339,7 +363,7 @@ class DisplayPIV:
         ):
             text += ", error: " + self.piv_results.errors[ind_all]
 
-        self._text.set_text(text)
+        self._show_point_and_text(ix, iy, text)
 
         if self.show_correl:
             ax2 = self.ax1
@@ -438,6 +462,11 @@ class DisplayPIV:
             ax2.set_ylim(-0.5, correl.shape[0] - 0.5)
         self.fig.canvas.draw()
 
+    def _show_point_and_text(self, ix, iy, text):
+        self._point.set_visible(True)
+        self._point.set_data([ix], [iy])
+        self._text.set_text(text)
+
     def switch(self):
         if self.image0 is not None:
             self.image0.set_visible(not self.image0.get_visible())
-- 
2.43.0


From 2f5c3721823d1d5fce5515392fe8b29b8a112271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:25 +0000
Subject: [PATCH 096/105] fix: DisplayPreProc modifying the images

---
 src/fluidimage/data_objects/display_pre.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fluidimage/data_objects/display_pre.py b/src/fluidimage/data_objects/display_pre.py
index 5637a6d..1efa52b 100644
--- a/src/fluidimage/data_objects/display_pre.py
+++ b/src/fluidimage/data_objects/display_pre.py
@@ -41,6 +41,9 @@ class DisplayPreProc:
             np.reshape(im1p, (1, np.prod(im1p.shape))).transpose(),
             pourcent_histo,
         )
+        # (copies: the arrays of the user must not be modified)
+        im0, im1, im0p, im1p = (im.copy() for im in (im0, im1, im0p, im1p))
+
         im0[im0 > p0] = p0
         im1[im1 > p1] = p1
         im0p[im0p > p0p] = p0p
-- 
2.43.0


From 8a4235a4cd8c4631e16210521ef7e101082831e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:48 +0000
Subject: [PATCH 097/105] fix: fluidimviewer showing an old image after reload

---
 src/fluidimage/gui/imviewer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fluidimage/gui/imviewer.py b/src/fluidimage/gui/imviewer.py
index 4b9b27c..a99aa34 100644
--- a/src/fluidimage/gui/imviewer.py
+++ b/src/fluidimage/gui/imviewer.py
@@ -191,6 +191,8 @@ class ImageViewer(AppMatplotlibWidgets):
 
     def reloadim(self, event):
         self.loadim(self.ifile)
+        self.cbar.update_normal(self.mappable)
+        self.fig.canvas.draw()
 
     def loadim(self, ifile, im=None):
         _print_debug("loadim", ifile, im)
@@ -207,6 +209,10 @@ class ImageViewer(AppMatplotlibWidgets):
             vmin=self.clim[0],
             vmax=self.clim[1],
         )
+        map_old = self.maps.get(ifile)
+        if map_old is not None:
+            # reloaded: the old image must not be shown anymore
+            map_old.remove()
         self.maps[ifile] = self.mappable
 
     def get_namefile(self):
-- 
2.43.0


From 273b9182ac9c8e33a34de0088333a7f58230df1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:48 +0000
Subject: [PATCH 098/105] fix: fluidimviewer: image hidden when it does not
 change, colorbar of another image

---
 src/fluidimage/gui/imviewer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fluidimage/gui/imviewer.py b/src/fluidimage/gui/imviewer.py
index a99aa34..1836663 100644
--- a/src/fluidimage/gui/imviewer.py
+++ b/src/fluidimage/gui/imviewer.py
@@ -228,7 +228,8 @@ class ImageViewer(AppMatplotlibWidgets):
         name_file = self.get_namefile()
         print("changing to file " + name_file, end="...")
         _print_debug("")
-        map_old = self.mappable
+        # (can be the image to be shown)
+        self.mappable.set_visible(False)
 
         if ifile in self.maps:
             self.mappable = self.maps[ifile]
@@ -237,7 +238,7 @@ class ImageViewer(AppMatplotlibWidgets):
         else:
             self.loadim(ifile)
 
-        map_old.set_visible(False)
+        self.cbar.update_normal(self.mappable)
         self.ax.set_title(name_file)
         self.fig.canvas.draw()
         _print_debug("")
@@ -297,8 +298,8 @@ class ImageViewer(AppMatplotlibWidgets):
         self._updating_clim = True
         _print_debug("_update_clim:", self.clim)
         self.mappable.set_clim(self.clim)
+        self.cbar.update_normal(self.mappable)
         self.fig.canvas.draw()
-        # self.cbar.set_clim(self.clim)
         self.fig.draw_without_rendering()
 
         txt_cmax = self._textboxes["cmax = "]
-- 
2.43.0


From d29b183e57c5cdbedff043a24d6aaf4a2ed9dc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:48 +0000
Subject: [PATCH 099/105] fix: fluidimviewer: limits of the colors rounded
 (images with small values)

---
 src/fluidimage/gui/imviewer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fluidimage/gui/imviewer.py b/src/fluidimage/gui/imviewer.py
index 1836663..d418517 100644
--- a/src/fluidimage/gui/imviewer.py
+++ b/src/fluidimage/gui/imviewer.py
@@ -274,6 +274,9 @@ class ImageViewer(AppMatplotlibWidgets):
 
     def _change_cmax(self, text):
         _print_debug("_change_cmax")
+        if self._updating_clim:
+            # text rounded, written by the viewer itself
+            return
         cmax = safe_eval(text)
         if cmax == self.clim[1]:
             return
@@ -283,6 +286,8 @@ class ImageViewer(AppMatplotlibWidgets):
 
     def _change_cmin(self, text):
         _print_debug("_change_cmin")
+        if self._updating_clim:
+            return
         cmin = safe_eval(text)
 
         if cmin == self.clim[0]:
-- 
2.43.0


From e1795a434c99039f168d65e52881ed27f3f0ea89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:48 +0000
Subject: [PATCH 100/105] fix: fluidpivviewer: last pass (more than 10 passes)

---
 src/fluidimage/gui/piv_viewer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/gui/piv_viewer.py b/src/fluidimage/gui/piv_viewer.py
index 5ba0ef0..e2c5206 100644
--- a/src/fluidimage/gui/piv_viewer.py
+++ b/src/fluidimage/gui/piv_viewer.py
@@ -47,8 +47,10 @@ def get_piv_data_from_path(path):
     ):
         if class_name == "MultipassPIVResults":
             with h5py.File(path, "r") as file:
-                keys = sorted(key for key in file.keys() if key.startswith("piv"))
-            key_piv = keys[-1]
+                index_last = max(
+                    int(key[3:]) for key in file.keys() if key.startswith("piv")
+                )
+            key_piv = f"piv{index_last}"
         else:
             key_piv = "piv"
 
-- 
2.43.0


From 48d60a28a2e089368afda9cc2b74f7b6d5faa8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:48 +0000
Subject: [PATCH 101/105] fix: fluidpivviewer: figure not drawn with the new
 field

---
 src/fluidimage/gui/piv_viewer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fluidimage/gui/piv_viewer.py b/src/fluidimage/gui/piv_viewer.py
index e2c5206..055c75a 100644
--- a/src/fluidimage/gui/piv_viewer.py
+++ b/src/fluidimage/gui/piv_viewer.py
@@ -212,6 +212,7 @@ class VectorFieldsViewer(AppMatplotlibWidgets):
         deltaxs, deltays, ixvecs, iyvecs = get_piv_data_from_path(path_file)
         self.ax.set_title(path_file.name)
         self._quiver.set_UVC(deltaxs, deltays)
+        self.fig.canvas.draw()
 
 
 def main():
-- 
2.43.0


From 1d9d3b8d763bbc82801fa4758d46cf29f410d6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:18 +0000
Subject: [PATCH 102/105] fix: selection in DisplayPIV of a vector without
 correlation

---
 src/fluidimage/data_objects/display_piv.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fluidimage/data_objects/display_piv.py b/src/fluidimage/data_objects/display_piv.py
index f4d0027..22b896e 100644
--- a/src/fluidimage/data_objects/display_piv.py
+++ b/src/fluidimage/data_objects/display_piv.py
@@ -369,6 +369,10 @@ class DisplayPIV:
             ax2 = self.ax1
             ax2.cla()
             alphac = result.correls[ind_all]
+            if alphac is None:
+                # no correlation could be computed for this vector
+                self.fig.canvas.draw()
+                return
             alphac_max = alphac.max()
             correl = correl_max / alphac_max * alphac
 
-- 
2.43.0


From 9dcf2dd9d6719712fc1fa33fa90aa9181210122a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:04 +0000
Subject: [PATCH 103/105] fix: no result with params.preproc.im2im given as a
 function or a class

---
 src/fluidimage/works/image2image.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/fluidimage/works/image2image.py b/src/fluidimage/works/image2image.py
index d585cd9..a010408 100644
--- a/src/fluidimage/works/image2image.py
+++ b/src/fluidimage/works/image2image.py
@@ -14,6 +14,7 @@ Provides
 
 """
 
+import sys
 import types
 
 from fluiddyn.util import import_class
@@ -59,11 +60,27 @@ def init_im2im_function(im2im=None, args_init=()):
     return obj, im2im_func
 
 
+def _replace_im2im_by_its_name(params_im2im):
+    """Replace a function or a class by its name
+
+    The parameters are saved (with the results and in the job directories) and
+    a Python object cannot be written in these files.
+
+    """
+    im2im = params_im2im.im2im
+    if not isinstance(im2im, (types.FunctionType, type)):
+        return
+    module = sys.modules.get(im2im.__module__)
+    if getattr(module, im2im.__name__, None) is im2im:
+        params_im2im.im2im = f"{im2im.__module__}.{im2im.__name__}"
+
+
 def get_im2im_function_from_params(params_im2im):
     """Helper for other topologies"""
     _, im2im_func = init_im2im_function(
         im2im=params_im2im.im2im, args_init=params_im2im.args_init
     )
+    _replace_im2im_by_its_name(params_im2im)
     return im2im_func
 
 
@@ -82,6 +99,7 @@ class WorkImage2Image(BaseWorkFromImage):
         self.im2im_obj, self.im2im_func = init_im2im_function(
             im2im=params.im2im, args_init=params.args_init
         )
+        _replace_im2im_by_its_name(params)
 
     def calcul(self, tuple_image_name):
         return self.im2im_func(tuple_image_name)
-- 
2.43.0


From 418823c574d3bb9d61af6c9879e739dc9f172b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:38 +0000
Subject: [PATCH 104/105] fix: images of 16 bits, 64 bits integers and float64
 wrongly saved

---
 src/fluidimage/topologies/image2image.py | 3 +--
 src/fluidimage/util/util.py              | 9 +++++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/topologies/image2image.py b/src/fluidimage/topologies/image2image.py
index 469e4df..f3eb0f3 100644
--- a/src/fluidimage/topologies/image2image.py
+++ b/src/fluidimage/topologies/image2image.py
@@ -10,10 +10,9 @@
 import sys
 from pathlib import Path
 
-from fluiddyn.io.image import imsave
 from fluidimage import ParamContainer
 from fluidimage.topologies.splitters import SplitterFromImages
-from fluidimage.util import atomic_saving, imread
+from fluidimage.util import atomic_saving, imread, imsave
 from fluidimage.works.image2image import WorkImage2Image
 
 from .base import TopologyBaseFromImages
diff --git a/src/fluidimage/util/util.py b/src/fluidimage/util/util.py
index 9ef43f5..ae36c0b 100644
--- a/src/fluidimage/util/util.py
+++ b/src/fluidimage/util/util.py
@@ -28,6 +28,7 @@ from contextlib import contextmanager
 from pathlib import Path
 from tempfile import TemporaryDirectory
 
+import numpy as np
 import psutil
 from IPython.lib.pretty import pretty
 from simpleeval import EvalWithCompoundTypes
@@ -85,6 +86,14 @@ def atomic_saving(path):
 
 def imsave(path, array, **kwargs):
     "tmp docstring"
+    if not kwargs.get("as_int", False):
+        # _imsave writes the bytes of the array, as uint8, 32 bits integers or float32
+        array = np.asarray(array)
+        if np.issubdtype(array.dtype, np.floating):
+            array = array.astype(np.float32)
+        elif np.issubdtype(array.dtype, np.integer):
+            if array.dtype != np.uint8 and array.dtype.itemsize != 4:
+                array = array.astype(np.int32)
     _imsave(path, array, **kwargs)
 
 
-- 
2.43.0


From 68dfb08728d0412774bf5c428b8e7032e0e38f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:38 +0000
Subject: [PATCH 105/105] fix: float images computed again in complete mode

---
 src/fluidimage/topologies/base.py        | 10 ++++++----
 src/fluidimage/topologies/image2image.py |  6 ++++++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/fluidimage/topologies/base.py b/src/fluidimage/topologies/base.py
index 4b1ef42..340720a 100644
--- a/src/fluidimage/topologies/base.py
+++ b/src/fluidimage/topologies/base.py
@@ -615,15 +615,17 @@ class TopologyBaseFromImages(TopologyBase):
     def _get_name_result_from_name(self, name):
         return name
 
+    def _is_result_saved(self, name):
+        return (
+            self.path_dir_result / self._get_name_result_from_name(name)
+        ).exists()
+
     def compute_indices_to_be_computed(self):
         """Compute the indices corresponding to the images to be computed"""
         indices_images = []
         for indices in self.serie.iter_indices():
             name = self.serie.compute_name_from_indices(*indices)
-            path_im_output = (
-                self.path_dir_result / self._get_name_result_from_name(name)
-            )
-            if path_im_output.exists():
+            if self._is_result_saved(name):
                 continue
             indices_images.append(indices)
         self._fix_indices_images(indices_images)
diff --git a/src/fluidimage/topologies/image2image.py b/src/fluidimage/topologies/image2image.py
index f3eb0f3..f13ffba 100644
--- a/src/fluidimage/topologies/image2image.py
+++ b/src/fluidimage/topologies/image2image.py
@@ -119,6 +119,12 @@ class TopologyImage2Image(TopologyBaseFromImages):
         )
         self.results = []
 
+    def _is_result_saved(self, name):
+        # the float images are saved in tiff files (see imsave)
+        return super()._is_result_saved(name) or (
+            super()._is_result_saved(name + ".tiff")
+        )
+
     def save_image(self, tuple_path_image):
         """Save an image"""
         path, image = tuple_path_image
-- 
2.43.0

