From 451b240a7754124093a3a8e6f0ed58f532fe43a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:56 +0000
Subject: [PATCH 01/77] fix: leave room for the end-of-work marker in the
 feature extraction queue

When the memory planning yields a queue of one image, the sequential path
put the image and then blocked forever putting the end marker.
---
 opensfm/features_processing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opensfm/features_processing.py b/opensfm/features_processing.py
index bca17cb..6d0311f 100644
--- a/opensfm/features_processing.py
+++ b/opensfm/features_processing.py
@@ -76,7 +76,9 @@ def run_features_processing(data: DataSetBase, images: List[str], force: bool) -
         f"Expecting to queue at most {expected_images} images while parallel processing of {processes} images."
     )
 
-    process_queue: ProcessQueue = queue.Queue(expected_images)
+    # Room for at least one image and the end-of-work marker: the sequential
+    # path below puts both before anything is taken out of the queue.
+    process_queue: ProcessQueue = queue.Queue(max(2, expected_images))
     arguments: List[Tuple[str, Union[ProducerArgs, ConsumerArgs]]] = []
 
     if processes == 1:
-- 
2.43.0


From 9291dfccc61fa4b332180821e809cbc0103f7f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:56 +0000
Subject: [PATCH 02/77] fix: make the count of read images atomic in feature
 extraction

increment() followed by value() let several readers see the final count,
so several end markers were queued and, with a short queue, workers
blocked forever putting the marker back.
---
 opensfm/features_processing.py | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/opensfm/features_processing.py b/opensfm/features_processing.py
index 6d0311f..491753d 100644
--- a/opensfm/features_processing.py
+++ b/opensfm/features_processing.py
@@ -1,5 +1,4 @@
 # pyre-strict
-import itertools
 import logging
 import math
 import queue
@@ -151,24 +150,17 @@ def is_high_res_panorama(
 
 
 class Counter:
-    """Lock-less counter from https://julien.danjou.info/atomic-lock-free-counters-in-python/
-    that relies on the CPython impl. of itertools.count() that is thread-safe. Used, as for
-    some reason, joblib doesn't like a good old threading.Lock (everything is stuck)
-    """
+    """Thread-safe counter."""
 
     def __init__(self) -> None:
-        self.number_of_read = 0
-        self.counter: itertools.count[int] = itertools.count()
-        self.read_lock = threading.Lock()
+        self.count = 0
+        self.lock = threading.Lock()
 
-    def increment(self) -> None:
-        next(self.counter)
-
-    def value(self) -> int:
-        with self.read_lock:
-            value = next(self.counter) - self.number_of_read
-            self.number_of_read += 1
-        return value
+    def increment(self) -> int:
+        """Increment and return the new value, as a single atomic operation."""
+        with self.lock:
+            self.count += 1
+            return self.count
 
 
 def process(args: Tuple[str, Union[ProducerArgs, ConsumerArgs]]) -> None:
@@ -201,8 +193,7 @@ def read_images(
         args = (image, image_array, segmentation_array, instances_array, data, force)
 
         queue.put(args, block=True, timeout=full_queue_timeout)
-        counter.increment()
-        if counter.value() == expected:
+        if counter.increment() == expected:
             logger.info("Finished reading images")
             queue.put(None)
 
-- 
2.43.0


From b348974c1b0d7a2c43673f25d8da29ea3d341942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:54 +0000
Subject: [PATCH 03/77] fix: restore the OpenCV thread count when a parallel
 item fails

---
 opensfm/context.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/opensfm/context.py b/opensfm/context.py
index 4cf7558..93dcfb5 100644
--- a/opensfm/context.py
+++ b/opensfm/context.py
@@ -51,7 +51,15 @@ def parallel_map(
     # De-activate/Restore any inner OpenCV threading
     threads_used = cv2.getNumThreads()
     cv2.setNumThreads(0)
+    try:
+        return _parallel_map(func, args, num_proc, max_batch_size)
+    finally:
+        cv2.setNumThreads(threads_used)
 
+
+def _parallel_map(
+    func: Callable[[T], R], args: List[T], num_proc: int, max_batch_size: int
+) -> List[R]:
     num_proc = min(num_proc, len(args))
     if num_proc <= 1:
         res = list(map(func, args))
@@ -63,7 +71,6 @@ def parallel_map(
             )
             res = Parallel(batch_size=batch_size)(delayed(func)(arg) for arg in args)
 
-    cv2.setNumThreads(threads_used)
     return res
 
 
-- 
2.43.0


From f7fdd5ec56611090885eacb86516b7f541ffa875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:30 +0000
Subject: [PATCH 04/77] fix: replace files only once they are completely
 written

---
 annotation_gui_gcp/lib/gcp_manager.py | 13 ++++-
 opensfm/io.py                         | 78 ++++++++++++++++++++++++---
 2 files changed, 83 insertions(+), 8 deletions(-)

diff --git a/annotation_gui_gcp/lib/gcp_manager.py b/annotation_gui_gcp/lib/gcp_manager.py
index efd9603..e5cd071 100644
--- a/annotation_gui_gcp/lib/gcp_manager.py
+++ b/annotation_gui_gcp/lib/gcp_manager.py
@@ -234,8 +234,17 @@ class GroundControlPointManager:
         if file_path is None:
             file_path = self.path + "/ground_control_points.json"
         output_points = self.points_to_json()
-        with open(file_path, "wt") as fp:
-            json.dump({"points": output_points}, fp, indent=4, sort_keys=True)
+        # Write aside first: a failure must not lose the annotations on disk
+        real_path = os.path.realpath(file_path)
+        tmp_path = real_path + ".tmp"
+        try:
+            with open(tmp_path, "wt") as fp:
+                json.dump({"points": output_points}, fp, indent=4, sort_keys=True)
+            os.replace(tmp_path, real_path)
+        except BaseException:
+            if os.path.exists(tmp_path):
+                os.remove(tmp_path)
+            raise
 
     def get_visible_points_coords(
         self, main_image: str
diff --git a/opensfm/io.py b/opensfm/io.py
index e44be61..3f6a857 100644
--- a/opensfm/io.py
+++ b/opensfm/io.py
@@ -1,4 +1,6 @@
 # pyre-strict
+import io as stdio
+import itertools
 import json
 import logging
 import os
@@ -11,11 +13,13 @@ from typing import (
     Dict,
     IO,
     Iterable,
+    Iterator,
     List,
     Optional,
     TextIO,
     Tuple,
     Union,
+    cast,
 )
 
 import cv2
@@ -1253,9 +1257,71 @@ def mkdir_p(path: str) -> None:
     os.makedirs(path, exist_ok=True)
 
 
-def open_wt(path: str) -> TextIO:
-    """Open a file in text mode for writing utf-8."""
-    return open(path, "w", encoding="utf-8")
+class _AtomicFileIO(stdio.FileIO):
+    """Raw file that takes its final name only once it is completely written.
+
+    Until it is closed, and if anything fails, what was at that path before
+    (or its absence) is left untouched.
+    """
+
+    _counter: Iterator[int] = itertools.count()
+
+    def __init__(self, path: str) -> None:
+        self.failed = False
+        self.path: str = os.path.realpath(path)
+        tmp = "{}.{}-{}.tmp".format(self.path, os.getpid(), next(self._counter))
+        super().__init__(tmp, "w")
+
+    def write(self, data: Any) -> Optional[int]:
+        try:
+            return super().write(data)
+        except BaseException:
+            self.failed = True
+            raise
+
+    def close(self) -> None:
+        if self.closed:
+            return
+        try:
+            super().close()
+            if not self.failed:
+                if os.path.exists(self.path):
+                    shutil.copymode(self.path, str(self.name))
+                os.replace(str(self.name), self.path)
+        except BaseException:
+            self.failed = True
+            raise
+        finally:
+            if self.failed and os.path.exists(str(self.name)):
+                os.remove(str(self.name))
+
+
+class _AtomicBufferedWriter(stdio.BufferedWriter):
+    def __exit__(self, exc_type: Any, exc: Any, tb: Any) -> None:
+        if exc_type is not None:
+            cast(_AtomicFileIO, self.raw).failed = True
+        super().__exit__(exc_type, exc, tb)
+
+
+class _AtomicTextIOWrapper(stdio.TextIOWrapper):
+    def __exit__(self, exc_type: Any, exc: Any, tb: Any) -> None:
+        if exc_type is not None:
+            cast(Any, self.buffer).raw.failed = True
+        super().__exit__(exc_type, exc, tb)
+
+
+def open_wb(path: str) -> BinaryIO:
+    """Open a file in binary mode for writing, atomically."""
+    if os.path.exists(path) and not os.path.isfile(path):
+        return open(path, "wb")  # a device, a pipe or a directory
+    return cast(BinaryIO, _AtomicBufferedWriter(_AtomicFileIO(path)))
+
+
+def open_wt(path: str, encoding: Optional[str] = "utf-8") -> TextIO:
+    """Open a file in text mode for writing, atomically."""
+    if os.path.exists(path) and not os.path.isfile(path):
+        return open(path, "w", encoding=encoding)
+    return cast(TextIO, _AtomicTextIOWrapper(open_wb(path), encoding=encoding))
 
 
 def open_rt(path: str) -> TextIO:
@@ -1319,7 +1385,7 @@ def imread_from_fileobject(
 
 
 def imwrite(path: str, image: NDArray) -> None:
-    with open(path, "wb") as fwb:
+    with open_wb(path) as fwb:
         return imwrite_from_fileobject(fwb, image, path)
 
 
@@ -1462,7 +1528,7 @@ class IoFilesystemDefault(IoFilesystemBase):
 
     @classmethod
     def open_wb(cls, path: str) -> BinaryIO:
-        return open(path, "wb")
+        return open_wb(path)
 
     @classmethod
     def open_rb(cls, path: str) -> BinaryIO:
@@ -1470,7 +1536,7 @@ class IoFilesystemDefault(IoFilesystemBase):
 
     @classmethod
     def open_wt(cls, path: str) -> TextIO:
-        return open(path, "wt")
+        return open_wt(path, encoding=None)
 
     @classmethod
     def open_rt(cls, path: str) -> TextIO:
-- 
2.43.0


From 2a24c97d867242adf0d2000300fac0928fc937ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:19 +0000
Subject: [PATCH 05/77] fix: give each image its own pruned debug point cloud

---
 opensfm/dense.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opensfm/dense.py b/opensfm/dense.py
index 19a107a..24e0408 100644
--- a/opensfm/dense.py
+++ b/opensfm/dense.py
@@ -237,7 +237,9 @@ def prune_depthmap(
     data.save_pruned_depthmap(shot.id, points, normals, colors, labels)
 
     if data.config["depthmap_save_debug_files"]:
-        data.save_point_cloud(points, normals, colors, labels, "pruned.npz.ply")
+        data.save_point_cloud(
+            points, normals, colors, labels, shot.id + ".pruned.npz.ply"
+        )
 
 
 def aggregate_depthmaps(
-- 
2.43.0


From d9d4fd646807bdbc782a38c08d507cfb86924a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:14 +0000
Subject: [PATCH 06/77] fix: write clusters and corrected GCP files aside
 before replacing them

---
 annotation_gui_gcp/run_ba.py |  3 ++-
 opensfm/large/metadataset.py | 14 ++++++++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/annotation_gui_gcp/run_ba.py b/annotation_gui_gcp/run_ba.py
index a53a25a..8800425 100644
--- a/annotation_gui_gcp/run_ba.py
+++ b/annotation_gui_gcp/run_ba.py
@@ -11,6 +11,7 @@ import numpy as np
 import opensfm.reconstruction as orec
 from opensfm import (
     dataset,
+    io,
     log,
     multiview,
     pygeometry,
@@ -615,7 +616,7 @@ def fix_3d_annotations_in_gcp_file(data):
                 obs["point"] = obs["projection"]
                 del obs["projection"]
 
-    with open(data._ground_control_points_file(), "w") as f:
+    with io.open_wt(data._ground_control_points_file()) as f:
         json.dump(raw_gcps, f, indent=4, sort_keys=True)
 
 
diff --git a/opensfm/large/metadataset.py b/opensfm/large/metadataset.py
index 81da9f6..0a5c98c 100644
--- a/opensfm/large/metadataset.py
+++ b/opensfm/large/metadataset.py
@@ -136,9 +136,14 @@ class MetaDataSet:
         self, images: NDArray, positions: NDArray, labels: NDArray, centers: NDArray
     ) -> None:
         filepath = self._clusters_path()
-        np.savez_compressed(
-            filepath, images=images, positions=positions, labels=labels, centers=centers
-        )
+        with io.open_wb(filepath) as fout:
+            np.savez_compressed(
+                fout,
+                images=images,
+                positions=positions,
+                labels=labels,
+                centers=centers,
+            )
 
     def load_clusters(self) -> Tuple[NDArray, NDArray, NDArray, NDArray]:
         c = np.load(self._clusters_path())
@@ -148,7 +153,8 @@ class MetaDataSet:
 
     def save_clusters_with_neighbors(self, clusters: List[List[int]]) -> None:
         filepath = self._clusters_with_neighbors_path()
-        np.savez_compressed(filepath, clusters=np.array(clusters, dtype=object))
+        with io.open_wb(filepath) as fout:
+            np.savez_compressed(fout, clusters=np.array(clusters, dtype=object))
 
     def load_clusters_with_neighbors(self) -> NDArray:
         c = np.load(self._clusters_with_neighbors_path(), allow_pickle=True)
-- 
2.43.0


From 5ea6db89e16a14679fb9db0d6ccc9c6fce67f27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:59 +0000
Subject: [PATCH 07/77] fix: exporting the undistorted reconstruction to
 Bundler format

---
 opensfm/actions/export_bundler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/actions/export_bundler.py b/opensfm/actions/export_bundler.py
index c54eb77..bbe173b 100644
--- a/opensfm/actions/export_bundler.py
+++ b/opensfm/actions/export_bundler.py
@@ -28,7 +28,7 @@ def run_dataset(
     if undistorted:
         reconstructions = udata.load_undistorted_reconstruction()
         track_manager = udata.load_undistorted_tracks_manager()
-        images = reconstructions[0].shots.keys()
+        images = list(reconstructions[0].shots.keys())
     else:
         reconstructions = data.load_reconstruction()
         track_manager = data.load_tracks_manager()
-- 
2.43.0


From a4a873d796bbe27c09c1bfe43ce0feccc5b48c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:59 +0000
Subject: [PATCH 08/77] fix: transform the dense point cloud written by the
 current version

---
 opensfm/actions/export_geocoords.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/opensfm/actions/export_geocoords.py b/opensfm/actions/export_geocoords.py
index 966ef14..6cdbdb1 100644
--- a/opensfm/actions/export_geocoords.py
+++ b/opensfm/actions/export_geocoords.py
@@ -145,17 +145,17 @@ def _transform_dense_point_cloud(
     input_path = udata.point_cloud_file()
     with io.open_rt(input_path) as fin:
         with io.open_wt(output_path) as fout:
-            for i, line in enumerate(fin):
-                if i < 13:
-                    fout.write(line)
-                else:
-                    x, y, z, nx, ny, nz, red, green, blue = line.split()
-                    # pyre-fixme[6]: For 2nd argument expected `Union[Sequence[Sequen...
-                    x, y, z = np.dot(A, map(float, [x, y, z])) + b
-                    # pyre-fixme[6]: For 2nd argument expected `Union[Sequence[Sequen...
-                    nx, ny, nz = np.dot(A, map(float, [nx, ny, nz]))
-                    fout.write(
-                        "{} {} {} {} {} {} {} {} {}\n".format(
-                            x, y, z, nx, ny, nz, red, green, blue
-                        )
-                    )
+            for line in fin:
+                fout.write(line)
+                if line.strip() == "end_header":
+                    break
+            for line in fin:
+                words = line.split()
+                point = [float(v) for v in words[0:3]]
+                normal = [float(v) for v in words[3:6]]
+                x, y, z = np.dot(A, point) + b
+                nx, ny, nz = np.dot(A, normal)
+                # colors and class follow
+                fout.write(
+                    " ".join(map(str, [x, y, z, nx, ny, nz] + words[6:])) + "\n"
+                )
-- 
2.43.0


From 78a5efeb14743b7a16e2298fe37b7ee75a60f1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:26 +0000
Subject: [PATCH 09/77] fix: report failed depthmaps instead of leaving them
 out silently

---
 opensfm/dense.py | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/opensfm/dense.py b/opensfm/dense.py
index 24e0408..f1833f8 100644
--- a/opensfm/dense.py
+++ b/opensfm/dense.py
@@ -42,54 +42,74 @@ def compute_depthmaps(
             continue
         mind, maxd = compute_depth_range(graph, reconstruction, shot, config)
         arguments.append((data, neighbors[shot.id], mind, maxd, shot))
-    parallel_map(compute_depthmap_catched, arguments, processes)
+    run_for_all_shots(compute_depthmap_catched, arguments, processes)
 
     arguments = []
     for shot in reconstruction.shots.values():
         if len(neighbors[shot.id]) <= 1:
             continue
         arguments.append((data, neighbors[shot.id], shot))
-    parallel_map(clean_depthmap_catched, arguments, processes)
+    run_for_all_shots(clean_depthmap_catched, arguments, processes)
 
     arguments = []
     for shot in reconstruction.shots.values():
         if len(neighbors[shot.id]) <= 1:
             continue
         arguments.append((data, neighbors[shot.id], shot))
-    parallel_map(prune_depthmap_catched, arguments, processes)
+    run_for_all_shots(prune_depthmap_catched, arguments, processes)
 
     point_cloud = merge_depthmaps(data, reconstruction)
     data.save_point_cloud(*point_cloud, filename="merged.ply")
 
 
+def run_for_all_shots(
+    function: Callable[[Any], bool], arguments: List[Any], processes: int
+) -> None:
+    """Run a function on the arguments of each shot, failing if any of them failed.
+
+    The remaining shots are still processed.  Going on to the next step would
+    compute, and keep, results that ignore the failed shots.
+    """
+    succeeded = parallel_map(function, arguments, processes)
+    failed = [args[-1].id for args, done in zip(arguments, succeeded) if not done]
+    if failed:
+        raise RuntimeError("Could not process depthmaps of {}".format(failed))
+
+
 def compute_depthmap_catched(
     arguments: Tuple[UndistortedDataSet, List[pymap.Shot], float, float, pymap.Shot],
-) -> None:
+) -> bool:
     try:
         compute_depthmap(arguments)
+        return True
     except Exception as e:
         logger.error("Exception on child. Arguments: {}".format(arguments))
         logger.exception(e)
+        return False
 
 
 def clean_depthmap_catched(
     arguments: Tuple[UndistortedDataSet, List[pymap.Shot], pymap.Shot],
-) -> None:
+) -> bool:
     try:
         clean_depthmap(arguments)
+        return True
     except Exception as e:
         logger.error("Exception on child. Arguments: {}".format(arguments))
         logger.exception(e)
+        return False
 
 
 def prune_depthmap_catched(
     arguments: Tuple[UndistortedDataSet, List[pymap.Shot], pymap.Shot],
-) -> None:
+) -> bool:
     try:
         prune_depthmap(arguments)
+        return True
     except Exception as e:
         logger.error("Exception on child. Arguments: {}".format(arguments))
         logger.exception(e)
+        return False
 
 
 def compute_depthmap(
-- 
2.43.0


From 19804bc367c5219493b0e2508fefd0e1bea27896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:26 +0000
Subject: [PATCH 10/77] fix: fail the PMVS export when an image can not be
 written

---
 opensfm/actions/export_pmvs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opensfm/actions/export_pmvs.py b/opensfm/actions/export_pmvs.py
index a690fba..d172e0a 100644
--- a/opensfm/actions/export_pmvs.py
+++ b/opensfm/actions/export_pmvs.py
@@ -134,7 +134,8 @@ def export(
             undistorted_image, data.config["feature_process_size"]
         )
         new_image_path = os.path.join(output_path, "visualize", base + ".jpg")
-        cv2.imwrite(new_image_path, resized_image)
+        if not cv2.imwrite(new_image_path, resized_image):
+            raise IOError("Unable to write image {}".format(new_image_path))
 
         # write camera projection matrix to txt/%08d.txt
         resized_h, resized_w = resized_image.shape[:2]
-- 
2.43.0


From 252cb47010e673e9bb47ed5909427dbeb4d6033c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:50 +0000
Subject: [PATCH 11/77] fix: let a subset of a dataset be created

---
 opensfm/dataset.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/opensfm/dataset.py b/opensfm/dataset.py
index a0b5248..59b333c 100644
--- a/opensfm/dataset.py
+++ b/opensfm/dataset.py
@@ -663,7 +663,6 @@ class DataSet(DataSetBase):
         folders = ["images", "segmentations", "masks"]
         for folder in folders:
             self.io_handler.mkdir_p(os.path.join(subset_dataset_path, folder))
-        subset_dataset = DataSet(subset_dataset_path, self.io_handler)
 
         files = []
         for method in [
@@ -672,12 +671,8 @@ class DataSet(DataSetBase):
             "_camera_models_overrides_file",
             "_exif_overrides_file",
         ]:
-            files.append(
-                (
-                    getattr(self, method)(),
-                    getattr(subset_dataset, method)(),
-                )
-            )
+            src = getattr(self, method)()
+            files.append((src, os.path.join(subset_dataset_path, os.path.basename(src))))
         for image in images_subset:
             files.append(
                 (
-- 
2.43.0


From ae39287707a9d79eea321d833351b3a83902c6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:51 +0000
Subject: [PATCH 12/77] fix: keep the links of a subset valid for a dataset
 given by a relative path

---
 opensfm/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/dataset.py b/opensfm/dataset.py
index 59b333c..a4a047c 100644
--- a/opensfm/dataset.py
+++ b/opensfm/dataset.py
@@ -698,7 +698,7 @@ class DataSet(DataSetBase):
             if not self.io_handler.exists(src):
                 continue
             self.io_handler.rm_if_exist(dst)
-            self.io_handler.symlink(src, dst)
+            self.io_handler.symlink(os.path.abspath(src), dst)
 
         return DataSet(subset_dataset_path, self.io_handler)
 
-- 
2.43.0


From e7233c0964f6af8435d85977fd0e1ac59809a174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:51 +0000
Subject: [PATCH 13/77] fix: do not overwrite the camera models of a dataset
 through its subset

---
 opensfm/dataset.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/opensfm/dataset.py b/opensfm/dataset.py
index a4a047c..7604b06 100644
--- a/opensfm/dataset.py
+++ b/opensfm/dataset.py
@@ -666,7 +666,6 @@ class DataSet(DataSetBase):
 
         files = []
         for method in [
-            "_camera_models_file",
             "_config_file",
             "_camera_models_overrides_file",
             "_exif_overrides_file",
@@ -700,7 +699,12 @@ class DataSet(DataSetBase):
             self.io_handler.rm_if_exist(dst)
             self.io_handler.symlink(os.path.abspath(src), dst)
 
-        return DataSet(subset_dataset_path, self.io_handler)
+        subset_dataset = DataSet(subset_dataset_path, self.io_handler)
+        # The subset updates its camera models: it needs a file of its own.
+        if self.io_handler.exists(self._camera_models_file()):
+            self.io_handler.rm_if_exist(subset_dataset._camera_models_file())
+            subset_dataset.save_camera_models(self.load_camera_models())
+        return subset_dataset
 
     def undistorted_dataset(self) -> "UndistortedDataSet":
         return UndistortedDataSet(
-- 
2.43.0


From 4ff2d31bf66cb04cae19626b7e13f38c2050c22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:49 +0000
Subject: [PATCH 14/77] fix: report an OpenMVS scene that could not be written

---
 opensfm/src/dense/openmvs_exporter.h        | 4 +++-
 opensfm/src/third_party/openmvs/Interface.h | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/opensfm/src/dense/openmvs_exporter.h b/opensfm/src/dense/openmvs_exporter.h
index 817b5ed..08d4e18 100644
--- a/opensfm/src/dense/openmvs_exporter.h
+++ b/opensfm/src/dense/openmvs_exporter.h
@@ -63,7 +63,9 @@ class OpenMVSExporter {
   }
 
   void Export(std::string filename) {
-    MVS::ARCHIVE::SerializeSave(scene_, filename);
+    if (!MVS::ARCHIVE::SerializeSave(scene_, filename)) {
+      throw std::runtime_error("Unable to write " + filename);
+    }
   }
 
  private:
diff --git a/opensfm/src/third_party/openmvs/Interface.h b/opensfm/src/third_party/openmvs/Interface.h
index 7fe6b4e..e1c5f7b 100644
--- a/opensfm/src/third_party/openmvs/Interface.h
+++ b/opensfm/src/third_party/openmvs/Interface.h
@@ -227,7 +227,8 @@ bool SerializeSave(const _Tp& obj, const std::string& fileName, uint32_t version
 	// serialize out the current state
 	ARCHIVE::ArchiveSave serializer(stream, version);
 	serializer & obj;
-	return true;
+	stream.close();
+	return !stream.fail();
 }
 template<typename _Tp>
 bool SerializeLoad(_Tp& obj, const std::string& fileName, uint32_t* pVersion=NULL) {
-- 
2.43.0


From 747934f5959763ff5dd3271d315c902bb1225bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:50 +0000
Subject: [PATCH 15/77] fix: fail the COLMAP export when a file can not be
 completely written

---
 opensfm/actions/export_colmap.py | 271 +++++++++++++++----------------
 1 file changed, 134 insertions(+), 137 deletions(-)

diff --git a/opensfm/actions/export_colmap.py b/opensfm/actions/export_colmap.py
index 1d71461..94cd44e 100644
--- a/opensfm/actions/export_colmap.py
+++ b/opensfm/actions/export_colmap.py
@@ -498,31 +498,30 @@ def export_cameras_reconstruction(
         for camera_id, camera in reconstruction.cameras.items():
             cameras[camera_id] = camera
 
-    if binary:
-        fout_bin = data.io_handler.open_wb(os.path.join(path, "cameras.bin"))
-        fout_bin.write(pack("<Q", len(cameras)))
-    else:
-        fout_txt = data.io_handler.open_wt(os.path.join(path, "cameras.txt"))
-
-    for camera_id, camera in cameras.items():
-        colmap_id = camera_map[camera_id]
-        colmap_type = COLMAP_TYPES_MAP[camera.projection_type]
-        w = camera.width
-        h = camera.height
-        params = camera_to_colmap_params(camera)
+    path = os.path.join(path, "cameras." + ("bin" if binary else "txt"))
+    open_file = data.io_handler.open_wb if binary else data.io_handler.open_wt
+    with open_file(path) as fout:
         if binary:
-            fout_bin.write(
-                pack("<2i", colmap_id, COLMAP_ID_MAP[camera.projection_type])
-            )
-            fout_bin.write(pack("<2Q", w, h))
-            fout_bin.write(pack(f"<{len(params)}d", *params))
-        else:
-            str_out = "%d %s %d %d"
-            for _param in params:
-                str_out += " %f"
-            str_out += "\n"
-            # pyrefly: ignore [unbound-name]
-            fout_txt.write(str_out % (colmap_id, colmap_type, w, h, *params))
+            fout.write(pack("<Q", len(cameras)))
+
+        for camera_id, camera in cameras.items():
+            colmap_id = camera_map[camera_id]
+            colmap_type = COLMAP_TYPES_MAP[camera.projection_type]
+            w = camera.width
+            h = camera.height
+            params = camera_to_colmap_params(camera)
+            if binary:
+                fout.write(
+                    pack("<2i", colmap_id, COLMAP_ID_MAP[camera.projection_type])
+                )
+                fout.write(pack("<2Q", w, h))
+                fout.write(pack(f"<{len(params)}d", *params))
+            else:
+                str_out = "%d %s %d %d"
+                for _param in params:
+                    str_out += " %f"
+                str_out += "\n"
+                fout.write(str_out % (colmap_id, colmap_type, w, h, *params))
 
 
 def export_images_reconstruction(
@@ -537,72 +536,71 @@ def export_images_reconstruction(
     reconstructions = data.load_reconstruction()
     tracks_manager = data.load_tracks_manager()
 
-    if binary:
-        fout_bin = data.io_handler.open_wb(os.path.join(path, "images.bin"))
-        n_ims = 0
-        for reconstruction in reconstructions:
-            n_ims += len(reconstruction.shots)
-        fout_bin.write(pack("<Q", n_ims))
-    else:
-        fout_txt = data.io_handler.open_wt(os.path.join(path, "images.txt"))
-
-    for reconstruction in reconstructions:
-        for shot_id, shot in reconstruction.shots.items():
-            colmap_camera_id = camera_map[shot.camera.id]
-            colmap_shot_id = images_map[shot_id]
-
-            t = shot.pose.translation
-            q = angle_axis_to_quaternion(shot.pose.rotation)
-
-            if binary:
-                fout_bin.write(pack("<I", colmap_shot_id))
-                fout_bin.write(pack("<7d", *(list(q) + list(t))))
-                fout_bin.write(pack("<I", colmap_camera_id))
-                for char in shot_id:
-                    fout_bin.write(pack("<c", char.encode("utf-8")))
-                fout_bin.write(pack("<c", b"\x00"))
-            format_line = "%d %f %f %f %f %f %f %f %d %s\n"
-            format_tuple = [
-                colmap_shot_id,
-                q[0],
-                q[1],
-                q[2],
-                q[3],
-                t[0],
-                t[1],
-                t[2],
-                colmap_camera_id,
-                shot_id,
-            ]
-
-            point_per_feat = {
-                obs.id: k
-                for k, obs in tracks_manager.get_shot_observations(shot_id).items()
-            }
-
-            points_tuple = []
-            for feature_id in range(len(features_map[shot_id])):
-                colmap_point_id = -1
-                if feature_id in point_per_feat:
-                    point_id = point_per_feat[feature_id]
-                    if point_id in points_map:
-                        colmap_point_id = points_map[point_id]
-
-                if colmap_point_id != -1:
-                    x, y = features_map[shot_id][feature_id]
-                    format_line += "%f %f %d "
-                    points_tuple += [x, y, colmap_point_id]
-            format_line += "\n"
+    path = os.path.join(path, "images." + ("bin" if binary else "txt"))
+    open_file = data.io_handler.open_wb if binary else data.io_handler.open_wt
+    with open_file(path) as fout:
+        if binary:
+            n_ims = 0
+            for reconstruction in reconstructions:
+                n_ims += len(reconstruction.shots)
+            fout.write(pack("<Q", n_ims))
 
-            if binary:
-                fout_bin.write(pack("<Q", len(points_tuple) // 3))
-                for i in range(0, len(points_tuple), 3):
-                    x, y, colmap_point_id = points_tuple[i : i + 3]
-                    fout_bin.write(pack("<2d", x, y))
-                    fout_bin.write(pack("<Q", colmap_point_id))
-            else:
-                # pyrefly: ignore [unbound-name]
-                fout_txt.write(format_line % tuple(format_tuple + points_tuple))
+        for reconstruction in reconstructions:
+            for shot_id, shot in reconstruction.shots.items():
+                colmap_camera_id = camera_map[shot.camera.id]
+                colmap_shot_id = images_map[shot_id]
+
+                t = shot.pose.translation
+                q = angle_axis_to_quaternion(shot.pose.rotation)
+
+                if binary:
+                    fout.write(pack("<I", colmap_shot_id))
+                    fout.write(pack("<7d", *(list(q) + list(t))))
+                    fout.write(pack("<I", colmap_camera_id))
+                    for char in shot_id:
+                        fout.write(pack("<c", char.encode("utf-8")))
+                    fout.write(pack("<c", b"\x00"))
+                format_line = "%d %f %f %f %f %f %f %f %d %s\n"
+                format_tuple = [
+                    colmap_shot_id,
+                    q[0],
+                    q[1],
+                    q[2],
+                    q[3],
+                    t[0],
+                    t[1],
+                    t[2],
+                    colmap_camera_id,
+                    shot_id,
+                ]
+
+                point_per_feat = {
+                    obs.id: k
+                    for k, obs in tracks_manager.get_shot_observations(shot_id).items()
+                }
+
+                points_tuple = []
+                for feature_id in range(len(features_map[shot_id])):
+                    colmap_point_id = -1
+                    if feature_id in point_per_feat:
+                        point_id = point_per_feat[feature_id]
+                        if point_id in points_map:
+                            colmap_point_id = points_map[point_id]
+
+                    if colmap_point_id != -1:
+                        x, y = features_map[shot_id][feature_id]
+                        format_line += "%f %f %d "
+                        points_tuple += [x, y, colmap_point_id]
+                format_line += "\n"
+
+                if binary:
+                    fout.write(pack("<Q", len(points_tuple) // 3))
+                    for i in range(0, len(points_tuple), 3):
+                        x, y, colmap_point_id = points_tuple[i : i + 3]
+                        fout.write(pack("<2d", x, y))
+                        fout.write(pack("<Q", colmap_point_id))
+                else:
+                    fout.write(format_line % tuple(format_tuple + points_tuple))
 
 
 def export_points_reconstruction(
@@ -613,55 +611,54 @@ def export_points_reconstruction(
 
     points_map = {}
 
-    if binary:
-        fout_bin = data.io_handler.open_wb(os.path.join(path, "points3D.bin"))
-        n_points = 0
-        for reconstruction in reconstructions:
-            n_points += len(reconstruction.points)
-        fout_bin.write(pack("<Q", n_points))
-    else:
-        fout_txt = data.io_handler.open_wt(os.path.join(path, "points3D.txt"))
-
-    i = 0
-    for reconstruction in reconstructions:
-        for point in reconstruction.points.values():
-            c = point.coordinates
-            cl = point.color
-            format_line = "%d %f %f %f %d %d %d %f "
-            format_tuple = [
-                int(i),
-                c[0],
-                c[1],
-                c[2],
-                int(cl[0]),
-                int(cl[1]),
-                int(cl[2]),
-                0.0,
-            ]
-
-            if binary:
-                fout_bin.write(pack("<Q", int(i)))
-                fout_bin.write(pack("<3d", c[0], c[1], c[2]))  # Position
-                fout_bin.write(pack("<3B", *[int(i) for i in cl]))  # Color
-                fout_bin.write(pack("<d", 0.0))  # Error
-
-            track_tuple = []
-            for image, obs in tracks_manager.get_track_observations(point.id).items():
-                if image not in reconstruction.shots:
-                    continue
-                format_line += "%d %d "
-                track_tuple += [images_map[image], obs.id]
-            format_line += "\n"
+    path = os.path.join(path, "points3D." + ("bin" if binary else "txt"))
+    open_file = data.io_handler.open_wb if binary else data.io_handler.open_wt
+    with open_file(path) as fout:
+        if binary:
+            n_points = 0
+            for reconstruction in reconstructions:
+                n_points += len(reconstruction.points)
+            fout.write(pack("<Q", n_points))
 
-            if binary:
-                fout_bin.write(pack("<Q", len(track_tuple) // 2))  # Track length
-                for el in track_tuple:
-                    fout_bin.write(pack("<i", el))  # Track
-            else:
-                # pyrefly: ignore [unbound-name]
-                fout_txt.write(format_line % tuple(format_tuple + track_tuple))
-            points_map[point.id] = i
-            i += 1
+        i = 0
+        for reconstruction in reconstructions:
+            for point in reconstruction.points.values():
+                c = point.coordinates
+                cl = point.color
+                format_line = "%d %f %f %f %d %d %d %f "
+                format_tuple = [
+                    int(i),
+                    c[0],
+                    c[1],
+                    c[2],
+                    int(cl[0]),
+                    int(cl[1]),
+                    int(cl[2]),
+                    0.0,
+                ]
+
+                if binary:
+                    fout.write(pack("<Q", int(i)))
+                    fout.write(pack("<3d", c[0], c[1], c[2]))  # Position
+                    fout.write(pack("<3B", *[int(i) for i in cl]))  # Color
+                    fout.write(pack("<d", 0.0))  # Error
+
+                track_tuple = []
+                for image, obs in tracks_manager.get_track_observations(point.id).items():
+                    if image not in reconstruction.shots:
+                        continue
+                    format_line += "%d %d "
+                    track_tuple += [images_map[image], obs.id]
+                format_line += "\n"
+
+                if binary:
+                    fout.write(pack("<Q", len(track_tuple) // 2))  # Track length
+                    for el in track_tuple:
+                        fout.write(pack("<i", el))  # Track
+                else:
+                    fout.write(format_line % tuple(format_tuple + track_tuple))
+                points_map[point.id] = i
+                i += 1
     return points_map
 
 
-- 
2.43.0


From 934d500c6138d9de7d9af1d66f3658a5a65b429c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:57 +0000
Subject: [PATCH 16/77] fix: do not take matches that can not be read for
 missing ones

---
 opensfm/tracking.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/opensfm/tracking.py b/opensfm/tracking.py
index 5110051..f3a98f5 100644
--- a/opensfm/tracking.py
+++ b/opensfm/tracking.py
@@ -58,10 +58,9 @@ def load_matches(
 ) -> Dict[Tuple[str, str], List[Tuple[int, int]]]:
     matches = {}
     for im1 in images:
-        try:
-            im1_matches = dataset.load_matches(im1)
-        except IOError:
+        if not dataset.matches_exists(im1):
             continue
+        im1_matches = dataset.load_matches(im1)
         for im2 in im1_matches:
             if im2 in images:
                 matches[im1, im2] = im1_matches[im2]
-- 
2.43.0


From b98702cfd1e95cac2d477260dbd8e0d1815b7a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:57 +0000
Subject: [PATCH 17/77] fix: do not take tracks that can not be read for
 missing ones in the PMVS export

---
 opensfm/actions/export_pmvs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/actions/export_pmvs.py b/opensfm/actions/export_pmvs.py
index d172e0a..8289440 100644
--- a/opensfm/actions/export_pmvs.py
+++ b/opensfm/actions/export_pmvs.py
@@ -46,7 +46,7 @@ def run_dataset(
         else:
             tracks_manager = data.load_tracks_manager()
         image_graph = tracking.as_weighted_graph(tracks_manager)
-    except IOError:
+    except FileNotFoundError:
         image_graph = None
         tracks_manager = None
 
-- 
2.43.0


From 1b2dcf1ac2f053c22788772ee4e07571929f0124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:13 +0000
Subject: [PATCH 18/77] fix: export the geocoordinates of a reconstruction with
 rigs

---
 opensfm/actions/export_geocoords.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/opensfm/actions/export_geocoords.py b/opensfm/actions/export_geocoords.py
index 6cdbdb1..cebe35c 100644
--- a/opensfm/actions/export_geocoords.py
+++ b/opensfm/actions/export_geocoords.py
@@ -128,10 +128,11 @@ def _transform_reconstruction(
     A, b = transformation[:3, :3], transformation[:3, 3]
     A1 = np.linalg.inv(A)
 
-    for shot in reconstruction.shots.values():
-        R = shot.pose.get_rotation_matrix()
-        shot.pose.set_rotation_matrix(np.dot(R, A1))
-        shot.pose.set_origin(np.dot(A, shot.pose.get_origin()) + b)
+    # The poses of the shots follow from those of their rig instances
+    for rig_instance in reconstruction.rig_instances.values():
+        R = rig_instance.pose.get_rotation_matrix()
+        rig_instance.pose.set_rotation_matrix(np.dot(R, A1))
+        rig_instance.pose.set_origin(np.dot(A, rig_instance.pose.get_origin()) + b)
 
     for point in reconstruction.points.values():
         point.coordinates = list(np.dot(A, point.coordinates) + b)
-- 
2.43.0


From d173a10c01ff09ffd617e3d9569864059781ad50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:04 +0000
Subject: [PATCH 19/77] fix: split datasets with a single positioned image

---
 opensfm/large/tools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/opensfm/large/tools.py b/opensfm/large/tools.py
index 5dc3f2b..9c601fb 100644
--- a/opensfm/large/tools.py
+++ b/opensfm/large/tools.py
@@ -40,6 +40,10 @@ def kmeans(
     criteria = (cv2.TERM_CRITERIA_MAX_ITER, max_iter, 1.0)
     flags = cv2.KMEANS_PP_CENTERS
 
+    # One sample per row also when there is a single sample, that OpenCV would
+    # otherwise take for a row of scalar samples
+    samples = samples.reshape(len(samples), 1, -1)
+
     if context.OPENCV3:
         return cv2.kmeans(samples, nclusters, None, criteria, attempts, flags)
     else:
-- 
2.43.0


From 44d994f81dd0284a9454d1e47e575be3a06b4cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:04 +0000
Subject: [PATCH 20/77] fix: do not count missing candidates as neighbours in
 pair selection

---
 opensfm/pairs_selection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/pairs_selection.py b/opensfm/pairs_selection.py
index 223e589..33dfc1c 100644
--- a/opensfm/pairs_selection.py
+++ b/opensfm/pairs_selection.py
@@ -185,7 +185,7 @@ def match_candidates_by_distance(
         logger.warning(f"Couldn't fetch {difference} images. Returning NO pairs.")
         return set()
 
-    points = np.zeros((len(representative_points), 3))
+    points = np.zeros((len(images_cand), 3))
     for i, point_id in enumerate(images_cand):
         points[i] = representative_points[point_id]
 
-- 
2.43.0


From c8570cc8e9d8e71f23e7c503923905e276e69a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:04 +0000
Subject: [PATCH 21/77] fix: select pairs by triangulation for images on a line
 or without references

---
 opensfm/pairs_selection.py | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/opensfm/pairs_selection.py b/opensfm/pairs_selection.py
index 33dfc1c..667cc88 100644
--- a/opensfm/pairs_selection.py
+++ b/opensfm/pairs_selection.py
@@ -217,6 +217,23 @@ def norm_2d(vec: NDArray) -> float:
     return math.sqrt(vec[0] ** 2 + vec[1] ** 2)
 
 
+def triangulate_points(points: NDArray) -> NDArray:
+    """Delaunay triangulation of 2D points, that can be degenerate."""
+    options = [
+        None,
+        # Initial simplex is flat
+        # Scale the input to fit the unit cube ("QbB")
+        "Qbb Qc Qz Q12 QbB",
+    ]
+    for option in options:
+        try:
+            return spatial.Delaunay(points, qhull_options=option).simplices
+        except spatial.QhullError:
+            continue
+    # All the points are on a line, joggle them ("QJ")
+    return spatial.Delaunay(points, qhull_options="QJ Qbb Q12").simplices
+
+
 def match_candidates_by_graph(
     images_ref: List[str],
     images_cand: List[str],
@@ -238,6 +255,10 @@ def match_candidates_by_graph(
     for i, point in enumerate(representative_points.values()):
         points[i] = point[0:2]
 
+    if np.all(points == points[0]):
+        logger.warning("All images are at the same position. Returning NO pairs.")
+        return set()
+
     def produce_edges(
         triangles: List[Tuple[int, int, int]],
     ) -> Iterable[Tuple[Tuple[str, str], Tuple[int, int]]]:
@@ -255,18 +276,12 @@ def match_candidates_by_graph(
 
     # first round compute scale based on edges (and push delaunay edges)
     edge_distances = []
-    try:
-        triangles = spatial.Delaunay(points).simplices
-    except spatial.QhullError:
-        # Initial simplex is flat
-        # Scale the input to fit the unit cube ("QbB")
-        triangles = spatial.Delaunay(
-            points, qhull_options="Qbb Qc Qz Q12 QbB"
-        ).simplices
-
+    triangles = triangulate_points(points)
     for (image1, image2), (vertex1, vertex2) in produce_edges(triangles):
         pairs.add((image1, image2))
         edge_distances.append(norm_2d(points[vertex1] - points[vertex2]))
+    if not pairs:
+        return pairs
     scale = np.median(edge_distances)
 
     # further rounds produces edges from jittered version of the original points
@@ -275,7 +290,7 @@ def match_candidates_by_graph(
     # chances of getting such diagonal edges and having more diversity
     for _ in range(rounds):
         points_current = copy.copy(points) + np.random.rand(*points.shape) * scale
-        triangles = spatial.Delaunay(points_current).simplices
+        triangles = triangulate_points(points_current)
         for (image1, image2), _ in produce_edges(triangles):
             pairs.add((image1, image2))
 
-- 
2.43.0


From dddc81a08a7f5f88c8451ffb6fc299792858556c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:44 +0000
Subject: [PATCH 22/77] fix: split datasets with a group of images without GPS

---
 opensfm/actions/create_submodels.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/opensfm/actions/create_submodels.py b/opensfm/actions/create_submodels.py
index 001cc5f..72ab017 100644
--- a/opensfm/actions/create_submodels.py
+++ b/opensfm/actions/create_submodels.py
@@ -1,6 +1,5 @@
 # pyre-strict
 import logging
-from collections import defaultdict
 from typing import cast, Tuple
 
 import numpy as np
@@ -54,13 +53,11 @@ def _create_image_list(data: DataSet, meta_data: MetaDataSet) -> None:
 
 
 def _read_image_groups(meta_data: MetaDataSet) -> None:
-    image_cluster = {}
-    cluster_images = defaultdict(list)
-    for image, cluster in meta_data.load_image_groups():
-        image_cluster[image] = cluster
-        cluster_images[cluster].append(image)
-    K = len(cluster_images)
-    cluster_index = dict(zip(sorted(cluster_images.keys()), range(K)))
+    image_cluster = dict(meta_data.load_image_groups())
+    # Groups without any image with GPS make no cluster
+    clusters = {image_cluster[image] for image, _, _ in meta_data.images_with_gps()}
+    K = len(clusters)
+    cluster_index = dict(zip(sorted(clusters), range(K)))
 
     images = []
     positions = []
-- 
2.43.0


From 7a7844d7427f67fd47da2d75a8ba0c2506fc2e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:54 +0000
Subject: [PATCH 23/77] fix: no pairs by time when there are no candidates

---
 opensfm/pairs_selection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/pairs_selection.py b/opensfm/pairs_selection.py
index 667cc88..ce9a533 100644
--- a/opensfm/pairs_selection.py
+++ b/opensfm/pairs_selection.py
@@ -545,7 +545,7 @@ def match_candidates_by_time(
     max_neighbors: int,
 ) -> Set[Tuple[str, str]]:
     """Find candidate matching pairs by time difference."""
-    if max_neighbors <= 0:
+    if max_neighbors <= 0 or len(images_cand) == 0:
         return set()
     k = min(len(images_cand), max_neighbors)
 
-- 
2.43.0


From 07c321cf4eaf53dba8b037a1458e1517b3d2e807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:03 +0000
Subject: [PATCH 24/77] fix: keep the colours of the points in a copy of a map

---
 opensfm/src/map/src/map.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opensfm/src/map/src/map.cc b/opensfm/src/map/src/map.cc
index e260303..67cab4f 100644
--- a/opensfm/src/map/src/map.cc
+++ b/opensfm/src/map/src/map.cc
@@ -44,7 +44,8 @@ std::unique_ptr<Map> Map::DeepCopy(const Map& map, bool copy_observations) {
   }
 
   for (const auto& [lm_id, landmark] : map.GetLandmarks()) {
-    map_copy->CreateLandmark(lm_id, landmark.GetGlobalPos());
+    map_copy->CreateLandmark(lm_id, landmark.GetGlobalPos())
+        .SetColor(landmark.GetColor());
   }
 
   if (copy_observations) {
-- 
2.43.0


From fd2044c94ecd2491e80c0e6e41e5540760a93a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:03 +0000
Subject: [PATCH 25/77] fix: no stale feature when a point is observed twice in
 a shot

---
 opensfm/src/map/shot.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opensfm/src/map/shot.h b/opensfm/src/map/shot.h
index cae2337..ce9b9c8 100644
--- a/opensfm/src/map/shot.h
+++ b/opensfm/src/map/shot.h
@@ -101,8 +101,9 @@ class Shot {
     return landmark_observations_.at(landmark_id_.at(id));
   }
   void CreateObservation(Landmark* lm, const Observation& obs) {
-    landmark_observations_.insert(std::make_pair(lm, obs));
-    landmark_id_.insert(std::make_pair(obs.feature_id, lm));
+    if (landmark_observations_.insert(std::make_pair(lm, obs)).second) {
+      landmark_id_.insert(std::make_pair(obs.feature_id, lm));
+    }
   }
   Observation* GetLandmarkObservation(Landmark* lm) {
     return &landmark_observations_.at(lm);
-- 
2.43.0


From d432003f510accc967456b736246d22f131c5184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:29 +0000
Subject: [PATCH 26/77] fix: start the annotation tool without a ground control
 points file

---
 annotation_gui_gcp/lib/GUI.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/annotation_gui_gcp/lib/GUI.py b/annotation_gui_gcp/lib/GUI.py
index cfea5dc..517d73c 100644
--- a/annotation_gui_gcp/lib/GUI.py
+++ b/annotation_gui_gcp/lib/GUI.py
@@ -42,7 +42,8 @@ class Gui:
         self.reconstruction_options = self.get_reconstruction_options()
         self.create_ui(cad_paths)
 
-        self.load_gcps()
+        if os.path.isfile(self.path + "/ground_control_points.json"):
+            self.load_gcps()
 
         self.load_analysis_results(self.ix_a, self.ix_b)
 
-- 
2.43.0


From c79c44a9560e391c1199e7df17fb8d30e73b4b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:07 +0000
Subject: [PATCH 27/77] fix: load ground control points without a measurement
 time in the annotation tool

---
 annotation_gui_gcp/lib/gcp_manager.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/annotation_gui_gcp/lib/gcp_manager.py b/annotation_gui_gcp/lib/gcp_manager.py
index e5cd071..668ecde 100644
--- a/annotation_gui_gcp/lib/gcp_manager.py
+++ b/annotation_gui_gcp/lib/gcp_manager.py
@@ -70,7 +70,7 @@ class GeodeticMeasurement:
     longitude: float
     latitude: float
     horizontal_std: float  # Standard deviation (m), horizontal.
-    measured_at: int  # Unix time
+    measured_at: int | None = None  # Unix time
     altitude: float | None = None
     vertical_std: float | None = None  # Standard deviation (m), vertical.
 
@@ -79,8 +79,9 @@ class GeodeticMeasurement:
             "latitude": self.latitude,
             "longitude": self.longitude,
             "horizontal_std": self.horizontal_std,
-            "measured_at": self.measured_at,
         }
+        if self.measured_at is not None:
+            d["measured_at"] = self.measured_at
         if self.altitude is not None:
             d["altitude"] = self.altitude
         if self.vertical_std is not None:
@@ -93,7 +94,7 @@ class GeodeticMeasurement:
             longitude=d["longitude"],
             latitude=d["latitude"],
             horizontal_std=d["horizontal_std"],
-            measured_at=d["measured_at"],
+            measured_at=d.get("measured_at"),
             altitude=d.get("altitude"),
             vertical_std=d.get("vertical_std"),
         )
@@ -209,7 +210,7 @@ class GroundControlPointManager:
                 point.geodetic_measurement = GeodeticMeasurement(
                     longitude=geo["longitude"],
                     latitude=geo["latitude"],
-                    measured_at=geo["measured_at"],
+                    measured_at=geo.get("measured_at"),
                     altitude=geo.get("altitude"),
                     horizontal_std=geo.get("horizontal_std", 100),
                     vertical_std=geo.get("vertical_std"),
-- 
2.43.0


From 68c463361300a863a834e542aa6aec91eb5bfc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:29 +0000
Subject: [PATCH 28/77] fix: annotate CAD models without failing on the
 measurement time

---
 annotation_gui_gcp/lib/views/cad_view.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/annotation_gui_gcp/lib/views/cad_view.py b/annotation_gui_gcp/lib/views/cad_view.py
index ce43879..6a9acd1 100644
--- a/annotation_gui_gcp/lib/views/cad_view.py
+++ b/annotation_gui_gcp/lib/views/cad_view.py
@@ -1,6 +1,7 @@
 # pyre-strict
 import json
 import logging
+import time
 from pathlib import Path
 from typing import Any
 
@@ -86,6 +87,7 @@ class CADView(WebView):
                 "altitude": lla[2],
                 "horizontal_std": 100,
                 "vertical_std": None,
+                "measured_at": int(time.time()),
             }
             self.main_ui.gcp_manager.add_point_observation(
                 active_gcp,
-- 
2.43.0


From 06b198b98d5dedd82dd524a20a99e15708d1e7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:12 +0000
Subject: [PATCH 29/77] fix: keep the annotated points when loading a file
 fails

---
 annotation_gui_gcp/lib/gcp_manager.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/annotation_gui_gcp/lib/gcp_manager.py b/annotation_gui_gcp/lib/gcp_manager.py
index 668ecde..4ae5aa6 100644
--- a/annotation_gui_gcp/lib/gcp_manager.py
+++ b/annotation_gui_gcp/lib/gcp_manager.py
@@ -196,10 +196,11 @@ class GroundControlPointManager:
     def load_from_file(self, file_path: str | None) -> None:
         if file_path is None:
             file_path = self.path + "/ground_control_points.json"
-        self.points.clear()
         with open(file_path, "r") as f:
             gcp_file: GCPFileDict = json.load(f)
         input_points = gcp_file["points"]
+        # Replace the points once all are read: a failure must not lose them
+        points: dict[str, ControlPoint] = {}
         for input_point in input_points:
             point = ControlPoint(input_point["id"])
             observations = input_point.get("observations", [])
@@ -215,7 +216,8 @@ class GroundControlPointManager:
                     horizontal_std=geo.get("horizontal_std", 100),
                     vertical_std=geo.get("vertical_std"),
                 )
-            self.points[point.id] = point
+            points[point.id] = point
+        self.points = points
 
     def points_to_json(self) -> list[ControlPointDict]:
         output_points: list[ControlPointDict] = []
-- 
2.43.0


From 40f62f70bb43314ece8968b433b88f7f2c44dcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:50 +0000
Subject: [PATCH 30/77] fix: serve one annotation request at a time

---
 annotation_gui_gcp/lib/GUI.py            |  3 +++
 annotation_gui_gcp/lib/views/web_view.py | 14 ++++++++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/annotation_gui_gcp/lib/GUI.py b/annotation_gui_gcp/lib/GUI.py
index 517d73c..d33c0ed 100644
--- a/annotation_gui_gcp/lib/GUI.py
+++ b/annotation_gui_gcp/lib/GUI.py
@@ -3,6 +3,7 @@ import os
 import random
 import subprocess
 import sys
+import threading
 import time
 from collections import defaultdict
 from collections.abc import Sequence
@@ -29,6 +30,8 @@ class Gui:
         rig_groups: dict[str, list[str]] | None = None,
         cad_paths: Sequence[Path] = (),
     ) -> None:
+        # Requests are served from several threads
+        self.lock = threading.RLock()
         self.gcp_manager = gcp_manager
         self.image_manager = image_manager
         self.curr_point = None
diff --git a/annotation_gui_gcp/lib/views/web_view.py b/annotation_gui_gcp/lib/views/web_view.py
index 0505ff6..13b5671 100644
--- a/annotation_gui_gcp/lib/views/web_view.py
+++ b/annotation_gui_gcp/lib/views/web_view.py
@@ -60,12 +60,18 @@ class WebView(abc.ABC):
         def postdata():
             data = request.get_json()
 
-            # Do something with the event received from the client
-            if data["event"] != "init":
+            # The analysis runs another program for long: don't block other requests
+            is_analysis = data["event"] in ("flex", "rigid", "full")
+            if is_analysis:
                 self.process_client_message(data)
 
-            # Send a sync event back to the client to reflect the changed state (all views)
-            self.main_ui.sync_to_client()
+            with self.main_ui.lock:
+                # Do something with the event received from the client
+                if data["event"] != "init" and not is_analysis:
+                    self.process_client_message(data)
+
+                # Send a sync event back to the client to reflect the changed state (all views)
+                self.main_ui.sync_to_client()
             return jsonify(success=True)
 
         self.app.add_url_rule(
-- 
2.43.0


From a1ea88e00b2be34cf199142c1dba1cb49bf9b414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:08 +0000
Subject: [PATCH 31/77] fix: write 16-bit images as 8-bit JPEG instead of
 saturating them

---
 opensfm/io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opensfm/io.py b/opensfm/io.py
index 3f6a857..9ec2212 100644
--- a/opensfm/io.py
+++ b/opensfm/io.py
@@ -1395,6 +1395,8 @@ def imwrite_from_fileobject(
     """Write an image to a file object"""
     if len(image.shape) == 3:
         image[:, :, :3] = image[:, :, [2, 1, 0]]  # Turn RGB to BGR (or RGBA to BGRA)
+    if image.dtype == np.uint16 and ext.lower().endswith((".jpg", ".jpeg")):
+        image = (image >> 8).astype(np.uint8)  # JPEG holds 8 bits per channel
     _, im_buffer = cv2.imencode(ext, image)
     fwb.write(im_buffer)
 
-- 
2.43.0


From 925360c232f789abacdac9191962f4b3a32a216c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:08 +0000
Subject: [PATCH 32/77] fix: ignore masked and textureless pixels in brute
 force depthmaps

---
 opensfm/src/dense/src/depthmap.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opensfm/src/dense/src/depthmap.cc b/opensfm/src/dense/src/depthmap.cc
index fbca39b..7fdc5cb 100644
--- a/opensfm/src/dense/src/depthmap.cc
+++ b/opensfm/src/dense/src/depthmap.cc
@@ -201,6 +201,7 @@ void DepthmapEstimator::ComputeBruteForce(DepthmapEstimatorResult* result) {
       }
     }
   }
+  ComputeIgnoreMask(result);
 }
 
 void DepthmapEstimator::ComputePatchMatch(DepthmapEstimatorResult* result) {
-- 
2.43.0


From 234ab2aec1f017b75055a5531696be2abcd0d8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:48 +0000
Subject: [PATCH 33/77] fix: copies of shots lost their mesh

---
 opensfm/src/map/src/map.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opensfm/src/map/src/map.cc b/opensfm/src/map/src/map.cc
index 67cab4f..c45a419 100644
--- a/opensfm/src/map/src/map.cc
+++ b/opensfm/src/map/src/map.cc
@@ -13,6 +13,7 @@ namespace {
 void AssignShot(map::Shot& to, const map::Shot& from) {
   to.merge_cc = from.merge_cc;
   to.scale = from.scale;
+  to.mesh = from.mesh;
   to.SetShotMeasurements(from.GetShotMeasurements());
   to.SetCovariance(from.GetCovariance());
 }
-- 
2.43.0


From 928507aff1eaceed9b69528c4a4ef5444843b077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:47 +0000
Subject: [PATCH 34/77] fix: triangulation reconstruction of datasets with rigs

---
 opensfm/reconstruction_helpers.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/opensfm/reconstruction_helpers.py b/opensfm/reconstruction_helpers.py
index 688adcf..50d4154 100644
--- a/opensfm/reconstruction_helpers.py
+++ b/opensfm/reconstruction_helpers.py
@@ -87,6 +87,7 @@ def reconstruction_from_metadata(
     """Initialize a reconstruction by using EXIF data for constructing shot poses and cameras."""
     data.init_reference()
     rig_assignments = rig.rig_assignments_per_image(data.load_rig_assignments())
+    rig_cameras = data.load_rig_cameras()
 
     reconstruction = types.Reconstruction()
     reconstruction.reference = data.load_reference()
@@ -100,8 +101,9 @@ def reconstruction_from_metadata(
             rig_instance_id = image
             rig_camera_id = camera_id
 
-        reconstruction.add_rig_camera(pymap.RigCamera(pygeometry.Pose(), rig_camera_id))
-        reconstruction.add_rig_instance(pymap.RigInstance(rig_instance_id))
+        reconstruction.add_rig_camera(rig_cameras[rig_camera_id])
+        if rig_instance_id not in reconstruction.rig_instances:
+            reconstruction.add_rig_instance(pymap.RigInstance(rig_instance_id))
         shot = reconstruction.create_shot(
             shot_id=image,
             camera_id=camera_id,
@@ -116,12 +118,15 @@ def reconstruction_from_metadata(
             continue
         gps_pos = shot.metadata.gps_position.value
 
+        pose = pygeometry.Pose()
         rotation = rotation_from_shot_metadata(shot)
         if rotation is not None:
             # pyre-fixme[6]: opensfm pybind / numpy stubs gap — runtime ok.
-            shot.pose.set_rotation_matrix(rotation)
+            pose.set_rotation_matrix(rotation)
         # pyre-fixme[6]: opensfm pybind / numpy stubs gap — runtime ok.
-        shot.pose.set_origin(gps_pos)
+        pose.set_origin(gps_pos)
+        # The pose of a shot follows from the one of its rig instance
+        shot.rig_instance.update_instance_pose_with_shot(image, pose)
         shot.scale = 1.0
     return reconstruction
 
-- 
2.43.0


From b8be038b035bd05728d9ecdf0840992b42797928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:47 +0000
Subject: [PATCH 35/77] fix: robust triangulation never tried the last pair of
 observations

---
 opensfm/reconstruction.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/opensfm/reconstruction.py b/opensfm/reconstruction.py
index 81d00f0..bffdad8 100644
--- a/opensfm/reconstruction.py
+++ b/opensfm/reconstruction.py
@@ -952,8 +952,8 @@ class TrackTriangulator:
 
         thresholds = len(os) * [reproj_threshold]
         min_ray_angle_radians = np.radians(min_ray_angle_degrees)
-        for i in range(ransac_tries):
-            random_id = int(np.random.rand() * (len(all_combinations) - 1))
+        for iteration in range(ransac_tries):
+            random_id = int(np.random.rand() * len(all_combinations))
             if random_id in combinatiom_tried:
                 continue
 
@@ -1020,7 +1020,7 @@ class TrackTriangulator:
                     optimal_iter = math.log(1.0 - pout) / math.log(
                         1.0 - inliers_ratio * inliers_ratio
                     )
-                    if optimal_iter <= i:
+                    if optimal_iter <= iteration:
                         break
 
         if len(best_inliers) > 1:
-- 
2.43.0


From ba8cb65500e1fd3b9cd42a0bb28889a55d37a056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:36 +0000
Subject: [PATCH 36/77] fix: COLMAP export of shots without rotation wrote NaN

---
 opensfm/actions/export_colmap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opensfm/actions/export_colmap.py b/opensfm/actions/export_colmap.py
index 94cd44e..d1ea312 100644
--- a/opensfm/actions/export_colmap.py
+++ b/opensfm/actions/export_colmap.py
@@ -664,6 +664,8 @@ def export_points_reconstruction(
 
 def angle_axis_to_quaternion(angle_axis: NDArray) -> List[float]:
     angle = np.linalg.norm(angle_axis)
+    if angle == 0:
+        return [1.0, 0.0, 0.0, 0.0]
 
     x = angle_axis[0] / angle
     y = angle_axis[1] / angle
-- 
2.43.0


From ef571254a2bf7da062d1d02a807272700235e6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:36 +0000
Subject: [PATCH 37/77] fix: binary COLMAP export failed on non-ASCII image
 names

---
 opensfm/actions/export_colmap.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/opensfm/actions/export_colmap.py b/opensfm/actions/export_colmap.py
index d1ea312..76f9ca7 100644
--- a/opensfm/actions/export_colmap.py
+++ b/opensfm/actions/export_colmap.py
@@ -557,9 +557,7 @@ def export_images_reconstruction(
                     fout.write(pack("<I", colmap_shot_id))
                     fout.write(pack("<7d", *(list(q) + list(t))))
                     fout.write(pack("<I", colmap_camera_id))
-                    for char in shot_id:
-                        fout.write(pack("<c", char.encode("utf-8")))
-                    fout.write(pack("<c", b"\x00"))
+                    fout.write(shot_id.encode("utf-8") + b"\x00")
                 format_line = "%d %f %f %f %f %f %f %f %d %s\n"
                 format_tuple = [
                     colmap_shot_id,
-- 
2.43.0


From 6716882e6501b68655bf1eda6b116f986e4afa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:36 +0000
Subject: [PATCH 38/77] fix: keypoints of the COLMAP model did not match the
 feature indices of its tracks

---
 opensfm/actions/export_colmap.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/opensfm/actions/export_colmap.py b/opensfm/actions/export_colmap.py
index 76f9ca7..5d63043 100644
--- a/opensfm/actions/export_colmap.py
+++ b/opensfm/actions/export_colmap.py
@@ -585,10 +585,9 @@ def export_images_reconstruction(
                         if point_id in points_map:
                             colmap_point_id = points_map[point_id]
 
-                    if colmap_point_id != -1:
-                        x, y = features_map[shot_id][feature_id]
-                        format_line += "%f %f %d "
-                        points_tuple += [x, y, colmap_point_id]
+                    x, y = features_map[shot_id][feature_id]
+                    format_line += "%f %f %d "
+                    points_tuple += [x, y, colmap_point_id]
                 format_line += "\n"
 
                 if binary:
@@ -596,7 +595,7 @@ def export_images_reconstruction(
                     for i in range(0, len(points_tuple), 3):
                         x, y, colmap_point_id = points_tuple[i : i + 3]
                         fout.write(pack("<2d", x, y))
-                        fout.write(pack("<Q", colmap_point_id))
+                        fout.write(pack("<q", colmap_point_id))
                 else:
                     fout.write(format_line % tuple(format_tuple + points_tuple))
 
-- 
2.43.0


From 985e99d9aa099f9b587cf1561bac55fcaf34120d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:36 +0000
Subject: [PATCH 39/77] fix: COLMAP export mixed up the points of different
 reconstructions

---
 opensfm/actions/export_colmap.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/opensfm/actions/export_colmap.py b/opensfm/actions/export_colmap.py
index 5d63043..66aa06d 100644
--- a/opensfm/actions/export_colmap.py
+++ b/opensfm/actions/export_colmap.py
@@ -88,7 +88,7 @@ def run_dataset(data: DataSet, binary: bool) -> None:
         if data.reconstruction_exists():
             export_ini_file(export_folder, database_path, images_path, data.io_handler)
             export_cameras_reconstruction(data, export_folder, camera_map, binary)
-            points_map = export_points_reconstruction(
+            points_maps = export_points_reconstruction(
                 data, export_folder, images_map, binary
             )
             export_images_reconstruction(
@@ -97,7 +97,7 @@ def run_dataset(data: DataSet, binary: bool) -> None:
                 camera_map,
                 images_map,
                 features_map,
-                points_map,
+                points_maps,
                 binary,
             )
         db.commit()
@@ -530,7 +530,7 @@ def export_images_reconstruction(
     camera_map: Dict[str, int],
     images_map: Dict[str, int],
     features_map: Dict[str, NDArray],
-    points_map: Dict[str, int],
+    points_maps: List[Dict[str, int]],
     binary: bool = False,
 ) -> None:
     reconstructions = data.load_reconstruction()
@@ -545,7 +545,7 @@ def export_images_reconstruction(
                 n_ims += len(reconstruction.shots)
             fout.write(pack("<Q", n_ims))
 
-        for reconstruction in reconstructions:
+        for reconstruction, points_map in zip(reconstructions, points_maps):
             for shot_id, shot in reconstruction.shots.items():
                 colmap_camera_id = camera_map[shot.camera.id]
                 colmap_shot_id = images_map[shot_id]
@@ -602,11 +602,12 @@ def export_images_reconstruction(
 
 def export_points_reconstruction(
     data: DataSet, path: str, images_map: Dict[str, int], binary: bool = False
-) -> Dict[str, int]:
+) -> List[Dict[str, int]]:
     reconstructions = data.load_reconstruction()
     tracks_manager = data.load_tracks_manager()
 
-    points_map = {}
+    # A track can be a point of more than one reconstruction
+    points_maps = []
 
     path = os.path.join(path, "points3D." + ("bin" if binary else "txt"))
     open_file = data.io_handler.open_wb if binary else data.io_handler.open_wt
@@ -619,6 +620,8 @@ def export_points_reconstruction(
 
         i = 0
         for reconstruction in reconstructions:
+            points_map = {}
+            points_maps.append(points_map)
             for point in reconstruction.points.values():
                 c = point.coordinates
                 cl = point.color
@@ -656,7 +659,7 @@ def export_points_reconstruction(
                     fout.write(format_line % tuple(format_tuple + track_tuple))
                 points_map[point.id] = i
                 i += 1
-    return points_map
+    return points_maps
 
 
 def angle_axis_to_quaternion(angle_axis: NDArray) -> List[float]:
-- 
2.43.0


From 16b3b8967898e80e507d7de015c5d67d43d5ca30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:36 +0000
Subject: [PATCH 40/77] fix: principal point of fisheye_opencv cameras in the
 COLMAP export

---
 opensfm/actions/export_colmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opensfm/actions/export_colmap.py b/opensfm/actions/export_colmap.py
index 66aa06d..3f7cbc6 100644
--- a/opensfm/actions/export_colmap.py
+++ b/opensfm/actions/export_colmap.py
@@ -393,8 +393,8 @@ def camera_to_colmap_params(camera: pygeometry.Camera) -> Tuple[float, ...]:
         return f, fy, c_x, c_y, k1, k2, p1, p2, k3, 0.0, 0.0, 0.0
     elif camera.projection_type == "fisheye_opencv":
         fy = f * camera.aspect_ratio
-        cx = w * 0.5 + camera.principal_point[0]
-        cy = h * 0.5 + camera.principal_point[1]
+        cx = w * 0.5 + normalizer * camera.principal_point[0]
+        cy = h * 0.5 + normalizer * camera.principal_point[1]
         k1 = camera.k1
         k2 = camera.k2
         k3 = camera.k3
-- 
2.43.0


From c63f9f29849b38b0026399aac0094ba119e1423a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:36 +0000
Subject: [PATCH 41/77] fix: PMVS export swapped red and blue of undistorted
 images

---
 opensfm/actions/export_pmvs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/actions/export_pmvs.py b/opensfm/actions/export_pmvs.py
index 8289440..6b6d084 100644
--- a/opensfm/actions/export_pmvs.py
+++ b/opensfm/actions/export_pmvs.py
@@ -121,7 +121,7 @@ def export(
         # radially undistort the original image
         camera = shot.camera
         if undistorted:
-            undistorted_image = udata.load_undistorted_image(image)
+            undistorted_image = udata.load_undistorted_image(image)[:, :, ::-1]
         else:
             original_image = data.load_image(image)[:, :, ::-1]
             original_h, original_w = original_image.shape[:2]
-- 
2.43.0


From 89c179ebdfdb7b9f30359687cc2af885bfd67e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:36 +0000
Subject: [PATCH 42/77] fix: PMVS export ignored the image list

---
 opensfm/actions/export_pmvs.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/opensfm/actions/export_pmvs.py b/opensfm/actions/export_pmvs.py
index 6b6d084..725c0ad 100644
--- a/opensfm/actions/export_pmvs.py
+++ b/opensfm/actions/export_pmvs.py
@@ -91,7 +91,12 @@ def export(
     io.mkdir_p(os.path.join(output_path, "txt"))
     io.mkdir_p(os.path.join(output_path, "models"))
 
-    shot_index = {image: i for i, image in enumerate(reconstruction.shots)}
+    images = [
+        image
+        for image in reconstruction.shots
+        if export_only is None or image in export_only
+    ]
+    shot_index = {image: i for i, image in enumerate(images)}
 
     fvis = open(os.path.join(output_path, "vis.dat"), "w")
     fvis.write("VISDATA\n")
-- 
2.43.0


From b38d400cfa1d1efee65310cca9695e5296a2bb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:36 +0000
Subject: [PATCH 43/77] fix: PMVS export of shots without tracks

---
 opensfm/actions/export_pmvs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opensfm/actions/export_pmvs.py b/opensfm/actions/export_pmvs.py
index 725c0ad..f0b7a5d 100644
--- a/opensfm/actions/export_pmvs.py
+++ b/opensfm/actions/export_pmvs.py
@@ -110,7 +110,8 @@ def export(
         # vis.dat for this image
         if image_graph:
             adj_indices = []
-            for adj_image in image_graph[image]:
+            neighbors = image_graph[image] if image in image_graph else {}
+            for adj_image in neighbors:
                 # pyrefly: ignore [bad-argument-type]
                 weight = float(image_graph[image][adj_image]["weight"])
                 if weight > 0 and adj_image in shot_index:
-- 
2.43.0


From d5a89edaccc58cde5743a70db1f67dc7dcd5bda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:36 +0000
Subject: [PATCH 44/77] fix: Bundler and VisualSfM exports of Brown cameras

---
 opensfm/actions/export_bundler.py   | 8 ++------
 opensfm/actions/export_visualsfm.py | 2 +-
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/opensfm/actions/export_bundler.py b/opensfm/actions/export_bundler.py
index bbe173b..4d4c096 100644
--- a/opensfm/actions/export_bundler.py
+++ b/opensfm/actions/export_bundler.py
@@ -73,12 +73,8 @@ def export_bundler(
             if shot_id in shots:
                 shot = shots[shot_id]
                 camera = shot.camera
-                if shot.camera.projection_type == "brown":
-                    # Will approximate Brown model, not optimal
-                    # pyrefly: ignore [missing-attribute]
-                    focal_normalized = camera.focal_x
-                else:
-                    focal_normalized = camera.focal
+                # Will approximate Brown model, not optimal
+                focal_normalized = camera.focal
                 scale = max(camera.width, camera.height)
                 focal = focal_normalized * scale
                 k1 = camera.k1
diff --git a/opensfm/actions/export_visualsfm.py b/opensfm/actions/export_visualsfm.py
index 2f7defb..fb8fe91 100644
--- a/opensfm/actions/export_visualsfm.py
+++ b/opensfm/actions/export_visualsfm.py
@@ -56,7 +56,7 @@ def export(
         i += 1
         if shot.camera.projection_type == "brown":
             # Will approximate Brown model, not optimal
-            focal_normalized = (shot.camera.focal_x + shot.camera.focal_y) / 2.0
+            focal_normalized = shot.camera.focal * (1 + shot.camera.aspect_ratio) / 2.0
         else:
             focal_normalized = shot.camera.focal
 
-- 
2.43.0


From 2b1ea6087d9f523f93d41dd3a4b8f8a9945e152e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:36 +0000
Subject: [PATCH 45/77] fix: pixel coordinates of the VisualSfM export

---
 opensfm/actions/export_visualsfm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opensfm/actions/export_visualsfm.py b/opensfm/actions/export_visualsfm.py
index fb8fe91..d3111c6 100644
--- a/opensfm/actions/export_visualsfm.py
+++ b/opensfm/actions/export_visualsfm.py
@@ -99,8 +99,9 @@ def export(
 
                 if shot_key in shots.keys():
                     v = obs.point
-                    x = (0.5 + v[0]) * shot_size_cache[shot_key][1]
-                    y = (0.5 + v[1]) * shot_size_cache[shot_key][0]
+                    h, w = shot_size_cache[shot_key]
+                    x = v[0] * max(w, h) + 0.5 * w
+                    y = v[1] * max(w, h) + 0.5 * h
                     view_line.append(
                         " ".join(map(str, [shot_index[shot_key], obs.id, x, y]))
                     )
-- 
2.43.0


From 7dc538a9867e37609219a22c686ba2b6595d175c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:36 +0000
Subject: [PATCH 46/77] fix: OpenMVS export named the working directory as mask
 of images without mask

---
 opensfm/actions/export_openmvs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/opensfm/actions/export_openmvs.py b/opensfm/actions/export_openmvs.py
index 1ef4231..9cd4d2d 100644
--- a/opensfm/actions/export_openmvs.py
+++ b/opensfm/actions/export_openmvs.py
@@ -52,12 +52,14 @@ def export(
         if shot.camera.projection_type == "perspective":
             image_path = udata._undistorted_image_file(shot.id)
             mask_path = udata._undistorted_mask_file(shot.id)
-            if not os.path.isfile(mask_path):
+            if os.path.isfile(mask_path):
+                mask_path = os.path.abspath(mask_path)
+            else:
                 mask_path = ""
 
             exporter.add_shot(
                 str(os.path.abspath(image_path)),
-                str(os.path.abspath(mask_path)),
+                str(mask_path),
                 str(shot.id),
                 str(shot.camera.id),
                 shot.pose.get_rotation_matrix(),
-- 
2.43.0


From e25f3a4fea4319a74cd1fbbaf3c072a47c255a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:36 +0000
Subject: [PATCH 47/77] fix: OpenMVS export attributed observations of missing
 shots to the first image

---
 opensfm/actions/export_openmvs.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/opensfm/actions/export_openmvs.py b/opensfm/actions/export_openmvs.py
index 9cd4d2d..2be85e4 100644
--- a/opensfm/actions/export_openmvs.py
+++ b/opensfm/actions/export_openmvs.py
@@ -45,6 +45,7 @@ def export(
             # pyre-fixme[6]: opensfm pybind / numpy stubs gap — runtime ok.
             exporter.add_camera(str(camera.id), K, w, h)
 
+    exported = set()
     for shot in reconstruction.shots.values():
         if export_only is not None and shot.id not in export_only:
             continue
@@ -65,14 +66,12 @@ def export(
                 shot.pose.get_rotation_matrix(),
                 shot.pose.get_origin(),
             )
+            exported.add(shot.id)
 
     for point in reconstruction.points.values():
         observations = tracks_manager.get_track_observations(point.id)
 
-        if export_only is not None:
-            shots = [k for k in observations if k in export_only]
-        else:
-            shots = list(observations)
+        shots = [k for k in observations if k in exported]
 
         if shots:
             coordinates = np.array(point.coordinates, dtype=np.float64)
-- 
2.43.0


From e52a9abe05c033d6d2469fe58e148e84a0c54257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:36 +0000
Subject: [PATCH 48/77] fix: export_geocoords wrote every requested output to
 the same file

---
 opensfm/actions/export_geocoords.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/opensfm/actions/export_geocoords.py b/opensfm/actions/export_geocoords.py
index cebe35c..0d7186b 100644
--- a/opensfm/actions/export_geocoords.py
+++ b/opensfm/actions/export_geocoords.py
@@ -44,26 +44,30 @@ def run_dataset(
     t = _get_transformation(reference, projection)
 
     if transformation:
-        output = output or "geocoords_transformation.txt"
-        output_path = os.path.join(data.data_path, output)
+        output_path = os.path.join(
+            data.data_path, output or "geocoords_transformation.txt"
+        )
         _write_transformation(t, output_path)
 
     if image_positions:
         reconstructions = data.load_reconstruction()
-        output = output or "image_geocoords.tsv"
-        output_path = os.path.join(data.data_path, output)
+        output_path = os.path.join(
+            data.data_path, output or "image_geocoords.tsv"
+        )
         _transform_image_positions(reconstructions, t, output_path)
 
     if reconstruction:
         reconstructions = data.load_reconstruction()
         for r in reconstructions:
             _transform_reconstruction(r, t)
-        output = output or "reconstruction.geocoords.json"
-        data.save_reconstruction(reconstructions, output)
+        data.save_reconstruction(
+            reconstructions, output or "reconstruction.geocoords.json"
+        )
 
     if dense:
-        output = output or "undistorted/depthmaps/merged.geocoords.ply"
-        output_path = os.path.join(data.data_path, output)
+        output_path = os.path.join(
+            data.data_path, output or "undistorted/depthmaps/merged.geocoords.ply"
+        )
         udata = data.undistorted_dataset()
         _transform_dense_point_cloud(udata, t, output_path)
 
-- 
2.43.0


From 6841a4f6034efd76f623447e05c8e25707608d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:43 +0000
Subject: [PATCH 49/77] fix: results depended on the order in which the file
 system lists images

---
 opensfm/dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opensfm/dataset.py b/opensfm/dataset.py
index 7604b06..4204d5d 100644
--- a/opensfm/dataset.py
+++ b/opensfm/dataset.py
@@ -218,7 +218,8 @@ class DataSet(DataSetBase):
         self.image_list = []
         self.image_files = {}
         if self.io_handler.exists(path):
-            for name in self.io_handler.ls(path):
+            # The file system lists files in any order
+            for name in sorted(self.io_handler.ls(path)):
                 if self._is_image_file(name):
                     self.image_list.append(name)
                     self.image_files[name] = os.path.join(path, name)
-- 
2.43.0


From d22e89ecf81fcd1dc49aaf27977a586375402770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:43 +0000
Subject: [PATCH 50/77] fix: the direction in which pairs are matched was
 random

---
 opensfm/pairs_selection.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/opensfm/pairs_selection.py b/opensfm/pairs_selection.py
index ce9a533..9ed1eef 100644
--- a/opensfm/pairs_selection.py
+++ b/opensfm/pairs_selection.py
@@ -818,24 +818,25 @@ def ordered_pairs(
     Returns a list of pairs (im1, im2) such that (im1 in images_ref) is true.
     """
     per_image = defaultdict(list)
-    for im1, im2 in pairs:
+    # The order and direction of the pairs must not depend on that of the sets
+    for im1, im2 in sorted(pairs):
         per_image[im1].append(im2)
         per_image[im2].append(im1)
 
-    ordered = set()
-    remaining = set(images_ref)
+    ordered = {}
+    remaining = dict.fromkeys(images_ref)
     if len(remaining) > 0:
-        next_image = remaining.pop()
+        next_image, _ = remaining.popitem()
         while next_image:
             im1 = next_image
             next_image = None
             for im2 in per_image[im1]:
                 if (im2, im1) not in ordered:
-                    ordered.add((im1, im2))
+                    ordered[im1, im2] = True
                     if not next_image and im2 in remaining:
                         next_image = im2
-                        remaining.remove(im2)
+                        del remaining[im2]
 
             if not next_image and remaining:
-                next_image = remaining.pop()
+                next_image, _ = remaining.popitem()
     return list(ordered)
-- 
2.43.0


From a33a2d55e7b8228ed8cab0f15632a83c804bc089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:07 +0000
Subject: [PATCH 51/77] fix: shots of exported geographic reconstructions were
 kilometres away

---
 opensfm/actions/export_geocoords.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/opensfm/actions/export_geocoords.py b/opensfm/actions/export_geocoords.py
index 0d7186b..795240d 100644
--- a/opensfm/actions/export_geocoords.py
+++ b/opensfm/actions/export_geocoords.py
@@ -134,9 +134,11 @@ def _transform_reconstruction(
 
     # The poses of the shots follow from those of their rig instances
     for rig_instance in reconstruction.rig_instances.values():
-        R = rig_instance.pose.get_rotation_matrix()
-        rig_instance.pose.set_rotation_matrix(np.dot(R, A1))
-        rig_instance.pose.set_origin(np.dot(A, rig_instance.pose.get_origin()) + b)
+        origin = np.dot(A, rig_instance.pose.get_origin()) + b
+        # Projections have scale, so keep the closest rotation
+        U, _, Vt = np.linalg.svd(np.dot(rig_instance.pose.get_rotation_matrix(), A1))
+        rig_instance.pose.set_rotation_matrix(np.dot(U, Vt))
+        rig_instance.pose.set_origin(origin)
 
     for point in reconstruction.points.values():
         point.coordinates = list(np.dot(A, point.coordinates) + b)
-- 
2.43.0


From 467e72f203a11a5fb20b2d0e9a91b32b4ded1b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:07 +0000
Subject: [PATCH 52/77] fix: PMVS visibility data of a dataset without tracks

---
 opensfm/actions/export_pmvs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/actions/export_pmvs.py b/opensfm/actions/export_pmvs.py
index f0b7a5d..0c739f0 100644
--- a/opensfm/actions/export_pmvs.py
+++ b/opensfm/actions/export_pmvs.py
@@ -108,7 +108,7 @@ def export(
         logger.info("Image: %s %s" % (image, base))
 
         # vis.dat for this image
-        if image_graph:
+        if image_graph is not None:
             adj_indices = []
             neighbors = image_graph[image] if image in image_graph else {}
             for adj_image in neighbors:
-- 
2.43.0


From 50a77de39a10587fe8da754d3fa008e1fb428169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:05 +0000
Subject: [PATCH 53/77] fix: an incomplete GPS position in EXIF no longer fails
 metadata extraction

---
 opensfm/exif.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index 9ec9c74..265a1b9 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -33,6 +33,8 @@ def eval_frac(
 def gps_to_decimal(
     values: List[exifread.utils.Ratio], reference: str
 ) -> Optional[float]:
+    if len(values) < 3:
+        return None
     sign = 1 if reference in "NE" else -1
     degrees = eval_frac(values[0])
     minutes = eval_frac(values[1])
@@ -348,7 +350,7 @@ class EXIF:
     def extract_lon_lat(self) -> Tuple[Optional[float], Optional[float]]:
         if self.has_dji_latlon():
             lon, lat = self.extract_dji_lon_lat()
-        elif "GPS GPSLatitude" in self.tags:
+        elif "GPS GPSLatitude" in self.tags and "GPS GPSLongitude" in self.tags:
             reflon, reflat = self.extract_ref_lon_lat()
             lat = gps_to_decimal(self.tags["GPS GPSLatitude"].values, reflat)
             lon = gps_to_decimal(self.tags["GPS GPSLongitude"].values, reflon)
-- 
2.43.0


From 3e4c89f29a6550ba5be83b2be9834cabc5b28ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:05 +0000
Subject: [PATCH 54/77] fix: EXIF time zone offsets are applied, with the sign
 of their minutes

---
 opensfm/exif.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index 265a1b9..a1012ea 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -429,12 +429,25 @@ class EXIF:
                     "Falling back to DateTime*".format(self.fileobj_name)
                 )
 
+        # The offset tags have no name in older versions of exifread
         time_strings = [
-            ("EXIF DateTimeOriginal", "EXIF SubSecTimeOriginal", "EXIF Tag 0x9011"),
-            ("EXIF DateTimeDigitized", "EXIF SubSecTimeDigitized", "EXIF Tag 0x9012"),
-            ("Image DateTime", "Image SubSecTime", "Image Tag 0x9010"),
+            (
+                "EXIF DateTimeOriginal",
+                "EXIF SubSecTimeOriginal",
+                ("EXIF OffsetTimeOriginal", "EXIF Tag 0x9011"),
+            ),
+            (
+                "EXIF DateTimeDigitized",
+                "EXIF SubSecTimeDigitized",
+                ("EXIF OffsetTimeDigitized", "EXIF Tag 0x9012"),
+            ),
+            (
+                "Image DateTime",
+                "EXIF SubSecTime",
+                ("EXIF OffsetTime", "EXIF Tag 0x9010"),
+            ),
         ]
-        for datetime_tag, subsec_tag, offset_tag in time_strings:
+        for datetime_tag, subsec_tag, offset_tags in time_strings:
             if datetime_tag in self.tags:
                 date_time = self.tags[datetime_tag].values
                 if subsec_tag in self.tags:
@@ -453,12 +466,14 @@ class EXIF:
                     )
                     continue
                 # Test for OffsetTimeOriginal | OffsetTimeDigitized | OffsetTime
-                if offset_tag in self.tags:
+                offset_tag = next((t for t in offset_tags if t in self.tags), None)
+                if offset_tag is not None:
                     offset_time = self.tags[offset_tag].values
                     try:
-                        d += datetime.timedelta(
-                            hours=-int(offset_time[0:3]), minutes=int(offset_time[4:6])
+                        offset = datetime.timedelta(
+                            hours=int(offset_time[1:3]), minutes=int(offset_time[4:6])
                         )
+                        d += offset if offset_time[0] == "-" else -offset
                     except (TypeError, ValueError):
                         logger.debug(
                             'The "{0:s}" time zone offset in image file "{1:s}"'
-- 
2.43.0


From eef2f8832487f2e4e4d513d492d4deeab9eb2b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:03 +0000
Subject: [PATCH 55/77] fix: one image's projection type no longer sticks to
 the calibration other images share

---
 opensfm/exif.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index a1012ea..4cd9fa6 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -754,7 +754,8 @@ def calibration_from_metadata(
             or default_calibration(data)
         )
     if "projection_type" not in calib:
-        calib["projection_type"] = pt
+        # Hard coded calibrations are shared between images: leave them alone
+        calib = dict(calib, projection_type=pt)
     return calib
 
 
-- 
2.43.0


From d02e5f95de67e06e3e43e6320f66dba348c1d0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:35 +0000
Subject: [PATCH 56/77] fix: calibrations known by focal length are used also
 where others are known by model

---
 opensfm/exif.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index 4cd9fa6..38c9983 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -661,15 +661,9 @@ def hard_coded_calibration(exif: Dict[str, Any]) -> Optional[Dict[str, Any]]:
     models = raw_calibrations[make]
     if "ALL" in models:
         return models["ALL"]
-    if "MODEL" in models:
-        if model not in models["MODEL"]:
-            return None
+    if model in models.get("MODEL", {}):
         return models["MODEL"][model]
-    if "FOCAL" in models:
-        if fmm35 not in models["FOCAL"]:
-            return None
-        return models["FOCAL"][fmm35]
-    return None
+    return models.get("FOCAL", {}).get(fmm35)
 
 
 def focal_ratio_calibration(exif: Dict[str, Any]) -> Optional[Dict[str, Any]]:
-- 
2.43.0


From acde88a5aef7fc01af28338b834370d16b7fe215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:38 +0000
Subject: [PATCH 57/77] fix: a saved reconstruction keeps the measured angles
 (OPK) and attributes of its shots

---
 opensfm/io.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/opensfm/io.py b/opensfm/io.py
index 9ec2212..5c1ecc8 100644
--- a/opensfm/io.py
+++ b/opensfm/io.py
@@ -577,6 +577,15 @@ def pymap_metadata_to_json(metadata: pymap.ShotMeasurements) -> Dict[str, Any]:
     if metadata.sequence_key.has_value:
         # pyrefly: ignore [unsupported-operation]
         obj["skey"] = metadata.sequence_key.value
+    if metadata.opk_angles.has_value:
+        # pyrefly: ignore [unsupported-operation]
+        obj["opk_angles"] = list(metadata.opk_angles.value)
+    if metadata.opk_accuracy.has_value:
+        # pyrefly: ignore [unsupported-operation]
+        obj["opk_accuracy"] = metadata.opk_accuracy.value
+    if metadata.attributes:
+        # pyrefly: ignore [unsupported-operation]
+        obj["attributes"] = dict(metadata.attributes)
     return obj
 
 
@@ -600,6 +609,12 @@ def json_to_pymap_metadata(obj: Dict[str, Any]) -> pymap.ShotMeasurements:
             metadata.compass_angle.value = compass["angle"]
         if "accuracy" in compass:
             metadata.compass_accuracy.value = compass["accuracy"]
+    if obj.get("opk_angles") is not None:
+        metadata.opk_angles.value = obj.get("opk_angles")
+    if obj.get("opk_accuracy") is not None:
+        metadata.opk_accuracy.value = obj.get("opk_accuracy")
+    if obj.get("attributes") is not None:
+        metadata.attributes = obj.get("attributes")
     return metadata
 
 
-- 
2.43.0


From 0b003816dab4f975b31e0b39967e04cf5f2b0f04 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:11:14 +0000
Subject: [PATCH 58/77] fix: the viewer served any file of the machine to paths
 with '..'

---
 viewer/server.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/viewer/server.py b/viewer/server.py
index c863bec..7ce1d47 100644
--- a/viewer/server.py
+++ b/viewer/server.py
@@ -4,6 +4,7 @@ import os
 from typing import List
 
 from flask import abort, Flask, jsonify, Response, send_file
+from werkzeug.security import safe_join
 
 
 app = Flask(__name__, static_folder="./", static_url_path="")
@@ -43,16 +44,12 @@ def get_recs() -> Response:
 
 @app.route("/data/<path:subpath>")
 def get_data(subpath) -> Response:
-    # pyrefly: ignore [no-matching-overload]
-    path = os.path.join(datapath, subpath)
-    return verified_send(path)
+    return send_from_dataset(subpath)
 
 
 @app.route("/image/<shot_id>")
 def get_image(shot_id) -> Response:
-    # pyrefly: ignore [no-matching-overload]
-    path = os.path.join(datapath, IMAGES, shot_id)
-    return verified_send(path)
+    return send_from_dataset(IMAGES, shot_id)
 
 
 def json_files(path) -> List[str]:
@@ -81,6 +78,14 @@ def reconstruction_files(path) -> List[str]:
     return sorted(filter(probably_reconstruction, files))
 
 
+def send_from_dataset(*parts) -> Response:
+    """Send a file of the dataset, and none outside of it."""
+    path = safe_join(datapath, *parts) if datapath is not None else None
+    if path is None:
+        abort(404)
+    return verified_send(path)
+
+
 def verified_send(file) -> Response:
     if os.path.isfile(file):
         return send_file(file)
-- 
2.43.0


From f2c3553ebbf06239ee4f542d9433fc53e3daa9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:44 +0000
Subject: [PATCH 59/77] fix: the area covered by images west or south of the
 reference was overstated

---
 opensfm/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/stats.py b/opensfm/stats.py
index c2695d2..f46e9d9 100644
--- a/opensfm/stats.py
+++ b/opensfm/stats.py
@@ -326,7 +326,7 @@ def processing_statistics(
         stats["date"] = "unknown"
 
     default_max = 1e30
-    min_x, min_y, max_x, max_y = default_max, default_max, 0, 0
+    min_x, min_y, max_x, max_y = default_max, default_max, -default_max, -default_max
     for rec in reconstructions:
         for shot in rec.shots.values():
             o = shot.pose.get_origin()
-- 
2.43.0


From a1dc0946752c1756498ba4ae4f81ee169df9dff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:44 +0000
Subject: [PATCH 60/77] fix: the average length of tracks over two dropped the
 shortest tracks, whatever their length

---
 opensfm/stats.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/opensfm/stats.py b/opensfm/stats.py
index f46e9d9..77a95a8 100644
--- a/opensfm/stats.py
+++ b/opensfm/stats.py
@@ -232,12 +232,13 @@ def reconstruction_statistics(
     # observations total and average tracks lengths
     hist_agg = sorted(hist_agg.items(), key=lambda x: x[0])
     lengths, counts = (
-        np.array([int(x[0]) for x in hist_agg]),
-        np.array([x[1] for x in hist_agg]),
+        np.array([x[0] for x in hist_agg], dtype=int),
+        np.array([x[1] for x in hist_agg], dtype=int),
     )
 
     points_count = stats["reconstructed_points_count"]
-    points_count_over_two = sum(counts[1:])
+    over_two = lengths > 2
+    points_count_over_two = sum(counts[over_two])
     stats["observations_count"] = int(sum(lengths * counts))
     stats["average_track_length"] = (
         # pyrefly: ignore [unsupported-operation]
@@ -245,7 +246,7 @@ def reconstruction_statistics(
     )
     stats["average_track_length_over_two"] = (
         # pyrefly: ignore [unsupported-operation]
-        (int(sum(lengths[1:] * counts[1:])) / points_count_over_two)
+        (int(sum((lengths * counts)[over_two])) / points_count_over_two)
         if points_count_over_two > 0
         else -1
     )
-- 
2.43.0


From 938967b5adee4a63e60512c2af6f747e1d2c23d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:25 +0000
Subject: [PATCH 61/77] fix: heatmaps and residual grids of all cameras, also
 of those that the last component has not

---
 opensfm/stats.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/opensfm/stats.py b/opensfm/stats.py
index 77a95a8..9b32542 100644
--- a/opensfm/stats.py
+++ b/opensfm/stats.py
@@ -834,7 +834,7 @@ def save_heatmap(
             all_projections[shot.camera.id] += shots_projections
 
     for camera_id, projections in all_projections.items():
-        buckets_x, buckets_y = _heatmap_buckets(rec.cameras[camera_id])
+        buckets_x, buckets_y = _heatmap_buckets(all_cameras[camera_id])
         camera_heatmap = np.zeros((buckets_y, buckets_x))
         for x, y in projections:
             k_low_x, k_low_y = -min(x - splatting, 0), -min(y - splatting, 0)
@@ -877,16 +877,16 @@ def save_heatmap(
             fontsize="x-small",
         )
 
-    with io_handler.open_wb(
-        os.path.join(
-            output_path, "heatmap_" + str(camera_id.replace("/", "_")) + ".png"
-        )
-    ) as fwb:
-        plt.savefig(
-            fwb,
-            dpi=300,
-            bbox_inches="tight",
-        )
+        with io_handler.open_wb(
+            os.path.join(
+                output_path, "heatmap_" + str(camera_id.replace("/", "_")) + ".png"
+            )
+        ) as fwb:
+            plt.savefig(
+                fwb,
+                dpi=300,
+                bbox_inches="tight",
+            )
 
 
 def save_residual_grids(
@@ -897,11 +897,13 @@ def save_residual_grids(
     io_handler: io.IoFilesystemBase,
 ) -> None:
     all_errors = {}
+    all_cameras = {}
 
     scaling = 4
     for rec in reconstructions:
-        for camera_id in rec.cameras:
-            all_errors[camera_id] = []
+        for camera in rec.cameras.values():
+            all_errors[camera.id] = []
+            all_cameras[camera.id] = camera
 
     for i in range(len(reconstructions)):
         valid_observations = _get_valid_observations(reconstructions, tracks_manager)(i)
@@ -942,14 +944,14 @@ def save_residual_grids(
     for camera_id, errors in all_errors.items():
         if not errors:
             continue
-        buckets_x, buckets_y = _grid_buckets(rec.cameras[camera_id])
+        buckets_x, buckets_y = _grid_buckets(all_cameras[camera_id])
         camera_array_res = np.zeros((buckets_y, buckets_x, 2))
         camera_array_count = np.full((buckets_y, buckets_x, 1), 1)
         for x, y, e in errors:
             camera_array_res[y, x] += e
             camera_array_count[y, x, 0] += 1
         camera_array_res = np.divide(camera_array_res, camera_array_count)
-        camera = rec.get_camera(camera_id)
+        camera = all_cameras[camera_id]
         w, h = camera.width, camera.height
         normalizer = max(w, h)
 
-- 
2.43.0


From af459ae88bbabc8b372d473753e09c3ac0624264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:25 +0000
Subject: [PATCH 62/77] fix: compute_statistics failed when no two images share
 a point

---
 opensfm/stats.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/opensfm/stats.py b/opensfm/stats.py
index 9b32542..b4e5474 100644
--- a/opensfm/stats.py
+++ b/opensfm/stats.py
@@ -516,9 +516,9 @@ def save_matchgraph(
             shot_component[shot] = i
 
     connectivity = tracks_manager.get_all_pairs_connectivity(all_shots, all_points)
-    all_values = connectivity.values()
-    lowest = np.percentile(list(all_values), 5)
-    highest = np.percentile(list(all_values), 95)
+    all_values = list(connectivity.values()) or [0]
+    lowest = np.percentile(all_values, 5)
+    highest = np.percentile(all_values, 95)
 
     plt.clf()
     # pyre-fixme[16]: opensfm pybind / numpy stubs gap — runtime ok.
-- 
2.43.0


From 68688c08ce31e1c7125cf61cfe7257852355c547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:08 +0000
Subject: [PATCH 63/77] fix: compute_statistics failed when all images are in
 one place or there are none

---
 opensfm/stats.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/opensfm/stats.py b/opensfm/stats.py
index b4e5474..97eaa27 100644
--- a/opensfm/stats.py
+++ b/opensfm/stats.py
@@ -660,19 +660,18 @@ def save_topview(
             all_y.append(gps[1])
 
     # compute camera's XY bounding box
-    low_x, high_x = np.min(all_x), np.max(all_x)
-    low_y, high_y = np.min(all_y), np.max(all_y)
+    low_x, high_x = min(all_x, default=0.0), max(all_x, default=0.0)
+    low_y, high_y = min(all_y, default=0.0), max(all_y, default=0.0)
 
-    # get its size
-    size_x = high_x - low_x
-    size_y = high_y - low_y
+    # get its size (in meters)
+    size = max(high_x - low_x, high_y - low_y, 1.0)
 
     # expand bounding box by some margin
-    margin = 0.05
-    low_x -= size_x * margin
-    high_x += size_y * margin
-    low_y -= size_x * margin
-    high_y += size_y * margin
+    margin = 0.05 * size
+    low_x -= margin
+    high_x += margin
+    low_y -= margin
+    high_y += margin
 
     # update size
     size_x = high_x - low_x
-- 
2.43.0


From 7839ab19cdcde826a3ceb53b1c61ecb4feb1d43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:37 +0000
Subject: [PATCH 64/77] fix: the report showed the residuals of another camera
 for one whose name begins alike

---
 opensfm/report.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/report.py b/opensfm/report.py
index 8cc9789..978d500 100644
--- a/opensfm/report.py
+++ b/opensfm/report.py
@@ -383,7 +383,7 @@ class Report:
             residual_grids = [
                 f
                 for f in self.io_handler.ls(self.output_path)
-                if f.startswith("residuals_" + str(camera.replace("/", "_")))
+                if f == "residuals_" + str(camera.replace("/", "_")) + ".png"
             ]
             if not residual_grids:
                 continue
-- 
2.43.0


From 75be9fa5f86a27cb00bd55870aa4928e29f6d968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:37 +0000
Subject: [PATCH 65/77] fix: export_report failed where there are no tracks or
 nothing was reconstructed

---
 opensfm/report.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/opensfm/report.py b/opensfm/report.py
index 978d500..31461ff 100644
--- a/opensfm/report.py
+++ b/opensfm/report.py
@@ -53,6 +53,9 @@ class Report:
         rows: List[List[str]],
         row_header: bool = False,
     ) -> None:
+        if not rows:
+            return
+
         self.pdf.set_font("Helvetica", "", self.h3)
         self.pdf.set_line_width(0.3)
 
@@ -208,6 +211,7 @@ class Report:
             geo_string.append("GCP")
 
         ratio_shots = rec_shots / init_shots * 100 if init_shots > 0 else -1
+        ratio_points = rec_points / init_points * 100 if init_points > 0 else -1
         rows = [
             [
                 "Reconstructed Images",
@@ -215,7 +219,7 @@ class Report:
             ],
             [
                 "Reconstructed Points",
-                f"{rec_points} over {init_points} points ({rec_points / init_points * 100:.1f}%)",
+                f"{rec_points} over {init_points} points ({ratio_points:.1f}%)",
             ],
             [
                 "Reconstructed Components",
@@ -321,9 +325,10 @@ class Report:
         heatmaps = [
             f for f in self.io_handler.ls(self.output_path) if f.startswith("heatmap")
         ]
-        self._make_centered_image(
-            os.path.join(self.output_path, heatmaps[0]), heatmap_height
-        )
+        if heatmaps:
+            self._make_centered_image(
+                os.path.join(self.output_path, heatmaps[0]), heatmap_height
+            )
         if len(heatmaps) > 1:
             logger.warning("Please implement multi-model display")
 
-- 
2.43.0


From 6aa7a0c96fa50c91a927ace2d3f913401c0b4950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:40 +0000
Subject: [PATCH 66/77] fix: export_report failed on figures that an
 interrupted compute_statistics had left half written

---
 opensfm/report.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/opensfm/report.py b/opensfm/report.py
index 31461ff..0d8fa40 100644
--- a/opensfm/report.py
+++ b/opensfm/report.py
@@ -250,7 +250,7 @@ class Report:
 
         topview_height = 130
         topview_grids = [
-            f for f in self.io_handler.ls(self.output_path) if f.startswith("topview")
+            f for f in self.io_handler.ls(self.output_path) if f == "topview.png"
         ]
         self._make_centered_image(
             os.path.join(self.output_path, topview_grids[0]), topview_height
@@ -323,7 +323,9 @@ class Report:
 
         heatmap_height = 60
         heatmaps = [
-            f for f in self.io_handler.ls(self.output_path) if f.startswith("heatmap")
+            f
+            for f in self.io_handler.ls(self.output_path)
+            if f.startswith("heatmap") and f.endswith(".png")
         ]
         if heatmaps:
             self._make_centered_image(
@@ -373,7 +375,7 @@ class Report:
         residual_histogram = [
             f
             for f in self.io_handler.ls(self.output_path)
-            if f.startswith("residual_histogram")
+            if f == "residual_histogram.png"
         ]
         self._make_centered_image(
             os.path.join(self.output_path, residual_histogram[0]),
@@ -462,7 +464,7 @@ class Report:
         matchgraph = [
             f
             for f in self.io_handler.ls(self.output_path)
-            if f.startswith("matchgraph")
+            if f == "matchgraph.png"
         ]
         self._make_centered_image(
             os.path.join(self.output_path, matchgraph[0]), matchgraph_height
-- 
2.43.0


From 2588185f409f8d1fc3d0f24638305703dfd32c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:50 +0000
Subject: [PATCH 67/77] fix: the last rig instance was never used for the
 calibration of a rig

---
 opensfm/rig.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/rig.py b/opensfm/rig.py
index 0c90d50..30c09f4 100644
--- a/opensfm/rig.py
+++ b/opensfm/rig.py
@@ -195,7 +195,7 @@ def propose_subset_dataset_from_instances(
             random_index = random.randint(0, len(instances_sorted) - 1)
             instances_calibrate = instances_sorted[
                 max([0, random_index - int(subset_size / 2)]) : min(
-                    [random_index + int(subset_size / 2), len(instances_sorted) - 1]
+                    [random_index + int(subset_size / 2), len(instances_sorted)]
                 )
             ]
 
-- 
2.43.0


From 162634118bcb932667f9dcb55f94db7c3661ebdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:20 +0000
Subject: [PATCH 68/77] fix: rig_instances.json had only the last image of each
 rig instance

---
 opensfm/actions/create_rig.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/opensfm/actions/create_rig.py b/opensfm/actions/create_rig.py
index 98e6352..c744322 100644
--- a/opensfm/actions/create_rig.py
+++ b/opensfm/actions/create_rig.py
@@ -43,15 +43,15 @@ def _reconstruction_from_rigs_and_assignments(
     reconstruction = types.Reconstruction()
     reconstruction.cameras = data.load_camera_models()
     for rig_instance_id, instance in assignments.items():
+        instance_obj = reconstruction.add_rig_instance(
+            pymap.RigInstance(rig_instance_id)
+        )
         for image, rig_camera_id in instance:
             rig_camera = rig_cameras[rig_camera_id]
             reconstruction.add_rig_camera(
                 pymap.RigCamera(rig_camera.pose, rig_camera_id)
             )
 
-            instance_obj = reconstruction.add_rig_instance(
-                pymap.RigInstance(rig_instance_id)
-            )
             instance_obj.pose.set_origin(
                 # pyre-fixme[6]: opensfm pybind / numpy stubs gap — runtime ok.
                 helpers.get_image_metadata(data, image).gps_position.value
-- 
2.43.0


From 11621a55ca307047ba48007f0bba3b22df6a25cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:20 +0000
Subject: [PATCH 69/77] fix: the poses of rig cameras were averaged in frames
 that differ where the rig is turned

---
 opensfm/rig.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/opensfm/rig.py b/opensfm/rig.py
index 30c09f4..9ae90e7 100644
--- a/opensfm/rig.py
+++ b/opensfm/rig.py
@@ -212,16 +212,17 @@ def compute_relative_pose(
 ) -> Dict[str, pymap.RigCamera]:
     """Compute a rig model relatives poses given poses grouped by rig instance."""
 
-    # Put all poses instances into some canonical frame taken as the mean of their R|t
+    # Put all poses instances into some canonical frame taken as the rotation of
+    # one of their cameras (always the same) and the mean of their origins
+    # (means of rotations of the shots would depend on how the instance is turned)
     centered_pose_instances = []
     for instance in pose_instances:
         origin_center = np.zeros(3)
-        rotation_center = np.zeros(3)
         for shot, _ in instance:
-            rotation_center += shot.pose.rotation
             origin_center += shot.pose.get_origin()
         origin_center /= len(instance)
-        rotation_center /= len(instance)
+        reference_shot, _ = min(instance, key=lambda x: x[1])
+        rotation_center = reference_shot.pose.rotation
 
         centered_pose_instance = []
         for shot, rig_camera_id in instance:
@@ -243,10 +244,10 @@ def compute_relative_pose(
         for pose, rig_camera_id, camera_id in centered_pose_instance:
             if rig_camera_id not in average_origin:
                 average_origin[rig_camera_id] = np.zeros(3)
-                average_rotation[rig_camera_id] = np.zeros(3)
+                average_rotation[rig_camera_id] = np.zeros((3, 3))
                 count_poses[rig_camera_id] = 0
             average_origin[rig_camera_id] += pose.get_origin()
-            average_rotation[rig_camera_id] += pose.rotation
+            average_rotation[rig_camera_id] += pose.get_rotation_matrix()
             camera_ids[rig_camera_id] = camera_id
             count_poses[rig_camera_id] += 1
 
@@ -254,8 +255,9 @@ def compute_relative_pose(
     rig_cameras: Dict[str, pymap.RigCamera] = {}
     for rig_camera_id, count in count_poses.items():
         o = average_origin[rig_camera_id] / count
-        r = average_rotation[rig_camera_id] / count
-        pose = pygeometry.Pose(r)
+        u, _, vt = np.linalg.svd(average_rotation[rig_camera_id])
+        pose = pygeometry.Pose()
+        pose.set_rotation_matrix(u @ np.diag([1, 1, np.linalg.det(u @ vt)]) @ vt)
         pose.set_origin(o)
         rig_cameras[rig_camera_id] = pymap.RigCamera(pose, rig_camera_id)
     return rig_cameras
-- 
2.43.0


From e1888ff9bca049c35dee80b0c0d5174f5df86f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:57 +0000
Subject: [PATCH 70/77] fix: rig cameras computed from incomplete instances
 were in another frame than the others

---
 opensfm/rig.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/opensfm/rig.py b/opensfm/rig.py
index 9ae90e7..41e2980 100644
--- a/opensfm/rig.py
+++ b/opensfm/rig.py
@@ -273,7 +273,14 @@ def create_rig_cameras_from_reconstruction(
 
     per_rig_camera_group = group_instances(rig_instances)
     logger.info(f"Found {len(per_rig_camera_group)} rig cameras groups")
-    for instances in sorted(per_rig_camera_group.values(), key=lambda x: -len(x)):
+    remaining = sorted(per_rig_camera_group.values(), key=lambda x: -len(x))
+    while remaining:
+        # Prefer groups having cameras that were computed from others
+        instances = next(
+            (x for x in remaining if any(c in rig_cameras for _, c in x[0])),
+            remaining[0],
+        )
+        remaining.remove(instances)
         pose_groups = []
         for instance in instances:
             if any(
@@ -287,11 +294,19 @@ def create_rig_cameras_from_reconstruction(
                     for shot_id, rig_camera_id in instance
                 ]
             )
-        for rig_camera_id, rig_camera in compute_relative_pose(pose_groups).items():
+        group_cameras = compute_relative_pose(pose_groups)
+        common = sorted(c for c in group_cameras if c in rig_cameras)
+        for rig_camera_id, rig_camera in group_cameras.items():
             if rig_camera_id in rig_cameras:
                 logger.warning(
                     f"Ignoring {rig_camera_id} as it was already computed from a bigger set of instances"
                 )
+            elif common:
+                # Each group has its own frame : bring the camera to the common one
+                pose = rig_camera.pose.compose(group_cameras[common[0]].pose.inverse())
+                rig_cameras[rig_camera_id] = pymap.RigCamera(
+                    pose.compose(rig_cameras[common[0]].pose), rig_camera_id
+                )
             else:
                 rig_cameras[rig_camera_id] = rig_camera
     return rig_cameras
-- 
2.43.0


From 9e4cba9ad97a2d135f405efff7fc2ef9c0e3bd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:53 +0000
Subject: [PATCH 71/77] fix: group the observations of a control point of
 unknown altitude in gcp_list.txt

---
 opensfm/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opensfm/io.py b/opensfm/io.py
index 5c1ecc8..ad617c5 100644
--- a/opensfm/io.py
+++ b/opensfm/io.py
@@ -913,7 +913,8 @@ def _read_gcp_list_lines(
     for line in lines:
         words = line.split(None, 5)
         easting, northing, alt, pixel_x, pixel_y = map(float, words[:5])
-        key = (easting, northing, alt)
+        # NaN is not equal to itself: points of unknown altitude need another key
+        key = (easting, northing, None if np.isnan(alt) else alt)
 
         shot_tokens = words[5].split(None)
         shot_id = shot_tokens[0]
-- 
2.43.0


From 8655a95b17ca10eeea347813c465988977d7bc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:53 +0000
Subject: [PATCH 72/77] fix: align with control points of unknown altitude only
 when nothing else is left

---
 opensfm/align.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/opensfm/align.py b/opensfm/align.py
index 72c5c89..1a939a7 100644
--- a/opensfm/align.py
+++ b/opensfm/align.py
@@ -127,7 +127,9 @@ def alignment_constraints(
     X, Xp = [], []
     # Get Ground Control Point correspondences
     if gcp and config["bundle_use_gcp"]:
-        triangulated, measured = triangulate_all_gcp(reconstruction, gcp)
+        triangulated, measured = triangulate_all_gcp(
+            reconstruction, [point for point in gcp if point.has_altitude]
+        )
         X.extend(triangulated)
         Xp.extend(measured)
     # Get camera center correspondences
@@ -141,6 +143,13 @@ def alignment_constraints(
             if len(gpses) > 0:
                 X.append(rig_instance.pose.get_origin())
                 Xp.append(np.average(gpses, axis=0))
+    # Points of unknown altitude can't constrain a 3D fit: last resort only
+    if gcp and config["bundle_use_gcp"] and len(X) < 3:
+        triangulated, measured = triangulate_all_gcp(
+            reconstruction, [point for point in gcp if not point.has_altitude]
+        )
+        X.extend(triangulated)
+        Xp.extend(measured)
     return X, Xp
 
 
-- 
2.43.0


From 55d8818ae4feabb7bdc444163e6f20a271d67eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:53 +0000
Subject: [PATCH 73/77] fix: leave untriangulated control points out of the
 alignment constraints instead of reading uninitialised rows

---
 opensfm/src/sfm/src/ba_helpers.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opensfm/src/sfm/src/ba_helpers.cc b/opensfm/src/sfm/src/ba_helpers.cc
index e66ba8c..9331cce 100644
--- a/opensfm/src/sfm/src/ba_helpers.cc
+++ b/opensfm/src/sfm/src/ba_helpers.cc
@@ -861,6 +861,9 @@ void BAHelpers::AlignmentConstraints(
       }
     }
   }
+  // Some points may not have been triangulated
+  Xp.conservativeResize(idx, Eigen::NoChange);
+  X.conservativeResize(idx, Eigen::NoChange);
 }
 
 std::string BAHelpers::DetectAlignmentConstraints(
-- 
2.43.0


From f555821b8fafc97cdfca32edd740b375ce8286f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:24 +0000
Subject: [PATCH 74/77] fix: compute OPK angles in the local frame instead of
 mixing it with ECEF north

The rotation from navigation to world frame used the ECEF vector pointing
north together with the local down axis, which is not even orthonormal and
makes omega, phi, kappa depend on latitude and longitude.
---
 opensfm/exif.py | 29 ++---------------------------
 1 file changed, 2 insertions(+), 27 deletions(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index 38c9983..a8ed544 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -10,7 +10,6 @@ import numpy as np
 import xmltodict as x2d
 from opensfm import pygeometry
 from opensfm.dataset_base import DataSetBase
-from opensfm.geo import ecef_from_lla
 from opensfm.sensors import camera_calibration, sensor_data
 
 logger: logging.Logger = logging.getLogger(__name__)
@@ -582,32 +581,8 @@ class EXIF:
                 # (Swap X/Y, flip Z)
                 cbb = np.array([[0, 1, 0], [1, 0, 0], [0, 0, -1]])
 
-                delta = 1e-7
-
-                p1 = np.array(
-                    ecef_from_lla(
-                        geo["latitude"] + delta,
-                        geo["longitude"],
-                        geo.get("altitude", 0),
-                    )
-                )
-                p2 = np.array(
-                    ecef_from_lla(
-                        geo["latitude"] - delta,
-                        geo["longitude"],
-                        geo.get("altitude", 0),
-                    )
-                )
-                xnp = p1 - p2
-                m = np.linalg.norm(xnp)
-
-                if m == 0:
-                    logger.debug("Cannot compute OPK angles, divider = 0")
-                    return opk
-
-                # Unit vector pointing north
-                xnp /= m
-
+                # North, east and down in the local (east, north, up) frame
+                xnp = np.array([0, 1, 0])
                 znp = np.array([0, 0, -1]).T
                 ynp = np.cross(znp, xnp)
 
-- 
2.43.0


From 96c4a4540ad0320b4bf0ac911475ade491293a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:14 +0000
Subject: [PATCH 75/77] fix: read DJI coordinates that have no plus sign

The first character was taken for the sign, so 47.1 became -7.1.
---
 opensfm/exif.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index a8ed544..67243a4 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -324,11 +324,7 @@ class EXIF:
     def extract_dji_lon_lat(self) -> Tuple[float, float]:
         lon = self.xmp[0]["@drone-dji:Longitude"]
         lat = self.xmp[0]["@drone-dji:Latitude"]
-        lon_number = float(lon[1:])
-        lat_number = float(lat[1:])
-        lon_number = lon_number if lon[0] == "+" else -lon_number
-        lat_number = lat_number if lat[0] == "+" else -lat_number
-        return lon_number, lat_number
+        return float(lon), float(lat)
 
     def extract_dji_altitude(self) -> float:
         return float(self.xmp[0]["@drone-dji:AbsoluteAltitude"])
-- 
2.43.0


From da2aabc89fb83e2f98d552ff01c5f891df796b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:08 +0000
Subject: [PATCH 76/77] fix: extend a reconstruction when images of the dataset
 have no tracks

Counting the tracks of an image that has none fails.
---
 opensfm/actions/extend_reconstruction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/actions/extend_reconstruction.py b/opensfm/actions/extend_reconstruction.py
index d2ba4c0..c900bc3 100644
--- a/opensfm/actions/extend_reconstruction.py
+++ b/opensfm/actions/extend_reconstruction.py
@@ -14,7 +14,7 @@ def run_dataset(data: DataSetBase, input: Optional[str], output: Optional[str])
     tracks_manager = data.load_tracks_manager()
     rec_base.add_correspondences_from_tracks_manager(tracks_manager)
 
-    images = data.images()
+    images = tracks_manager.get_shot_ids()
     remaining_images = set(images) - set(rec_base.shots)
     gcp = data.load_ground_control_points()
     report = {}
-- 
2.43.0


From 6c800983f0bfe9fb7ebd9e8b51c8e8b846169733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:26 +0000
Subject: [PATCH 77/77] fix: take the orientation tag into account in the up
 vectors of the bundle

Alignment with the horizontal prior turns images upright by their EXIF
orientation, but the bundle adjustment pulled the unturned vertical axis of
every image up.
---
 opensfm/src/sfm/src/ba_helpers.cc | 34 ++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/opensfm/src/sfm/src/ba_helpers.cc b/opensfm/src/sfm/src/ba_helpers.cc
index 9331cce..cb5066c 100644
--- a/opensfm/src/sfm/src/ba_helpers.cc
+++ b/opensfm/src/sfm/src/ba_helpers.cc
@@ -14,6 +14,36 @@
 #include "map/defines.h"
 
 namespace sfm {
+namespace {
+// The up vector given for an upright image in the axes of an image that is
+// turned as its EXIF orientation tag says
+Vec3d OrientedUpVector(const Vec3d& up_vector,
+                       const map::ShotMeasurements& measurements) {
+  const int orientation = measurements.orientation_.HasValue()
+                              ? measurements.orientation_.Value()
+                              : 1;
+  const double x = up_vector[0], y = up_vector[1], z = up_vector[2];
+  switch (orientation) {
+    case 2:
+      return Vec3d(-x, y, -z);
+    case 3:
+      return Vec3d(-x, -y, z);
+    case 4:
+      return Vec3d(x, -y, z);
+    case 5:
+      return Vec3d(y, x, -z);
+    case 6:
+      return Vec3d(y, -x, z);
+    case 7:
+      return Vec3d(-y, -x, -z);
+    case 8:
+      return Vec3d(-y, x, z);
+    default:
+      return up_vector;
+  }
+}
+}  // namespace
+
 std::pair<std::unordered_set<map::ShotId>, std::unordered_set<map::ShotId>>
 BAHelpers::ShotNeighborhoodIds(map::Map& map,
                                const map::ShotId& central_shot_id,
@@ -687,7 +717,9 @@ py::dict BAHelpers::Bundle(
     // that one doesn't have it's rig counterpart
     if (do_add_align_vector) {
       constexpr double std_dev = 1e-3;
-      ba.AddAbsoluteUpVector(shot.id_, up_vector, std_dev);
+      ba.AddAbsoluteUpVector(
+          shot.id_, OrientedUpVector(up_vector, shot.GetShotMeasurements()),
+          std_dev);
     }
 
     // setup observations for any shot type
-- 
2.43.0

