From 7fd9e89f7d68f9a57efbba2bbc09e8c3a3f40074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 01/21] fix: restart the matcher's random stream on every call

The stream was seeded from the clock when the library was loaded and carried
over from one match to the next, so the same evaluation gave different results
from one run to the next and for different numbers of processes.
---
 pyEdgeEval/_lib/src/match.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyEdgeEval/_lib/src/match.cc b/pyEdgeEval/_lib/src/match.cc
index 92f022b..3c09faa 100644
--- a/pyEdgeEval/_lib/src/match.cc
+++ b/pyEdgeEval/_lib/src/match.cc
@@ -6,6 +6,7 @@
 #include <stdio.h>
 #include "csa.hh"
 #include "kofn.hh"
+#include "Random.hh"
 #include "Point.hh"
 #include "Matrix.hh"
 #include "Array.hh"
@@ -39,6 +40,11 @@ matchEdgeMaps (
     assert (bmap1.ncols() == bmap2.ncols());
     assert (maxDist >= 0);
     assert (outlierCost > maxDist);
+
+    // The outlier connections are drawn at random: restart the stream on every
+    // call, so that a match depends on its arguments alone and not on the
+    // clock or on the matches made before it in the same process.
+    Random::rand.reseed (1);
     
     const int height = bmap1.nrows();
     const int width = bmap1.ncols();
-- 
2.43.0


From 7815cdee7623974d77f32d946b30202e6b33bcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 02/21] fix: decode instance ids of labels below 10 in
 mp_instance_mask2edge

An instance id is the label followed by a three digit number, e.g. 7001.  The
multiprocessing version took its first two digits as the label (70), so the
instances of labels 1 to 9 got no boundaries, unlike in the loop version.
---
 pyEdgeEval/edge_tools/mask2edge_mp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyEdgeEval/edge_tools/mask2edge_mp.py b/pyEdgeEval/edge_tools/mask2edge_mp.py
index 2b7a716..a416bb2 100644
--- a/pyEdgeEval/edge_tools/mask2edge_mp.py
+++ b/pyEdgeEval/edge_tools/mask2edge_mp.py
@@ -238,8 +238,10 @@ def mp_instance_mask2edge(
     for inst_label in _cand_insts:
         if inst_label < inst_labels[0] * 1000:  # 24000
             continue
-        _label = int(str(inst_label)[:2])
-        _inst = int(str(inst_label)[2:])
+        # fill, so that labels below 10 are decoded as in the loop version
+        inst_label = str(inst_label).zfill(5)
+        _label = int(inst_label[:2])
+        _inst = int(inst_label[2:])
         if _label not in label_inst.keys():
             label_inst[_label] = [_inst]
         else:
-- 
2.43.0


From 90263ab15a4b141c08119a9e9b3c634c1b56bb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 03/21] fix: read the clock once per check in Timer

The end of one lap and the start of the next were two readings of the clock, so
the time between them belonged to neither and laps did not add up.
---
 pyEdgeEval/utils/timer.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyEdgeEval/utils/timer.py b/pyEdgeEval/utils/timer.py
index 556c4de..80a5049 100644
--- a/pyEdgeEval/utils/timer.py
+++ b/pyEdgeEval/utils/timer.py
@@ -61,10 +61,11 @@ class Timer:
 
     def start(self):
         """Start the timer."""
+        now = time()
         if not self._is_running:
-            self._t_start = time()
+            self._t_start = now
             self._is_running = True
-        self._t_last = time()
+        self._t_last = now
 
     def since_start(self):
         """Total time since the timer is started.
@@ -88,8 +89,9 @@ class Timer:
         """
         if not self._is_running:
             raise TimerError("timer is not running")
-        dur = time() - self._t_last
-        self._t_last = time()
+        now = time()
+        dur = now - self._t_last
+        self._t_last = now
         return dur
 
 
-- 
2.43.0


From c77ea744f0b4787e2bbaf431a462e46607dc2246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 04/21] fix: initialize a logger once when several threads ask
 for it

Two threads could both find the logger uninitialized and both add a handler, so
that every message was written twice, or one could add an entry to the table
that the other was iterating over.
---
 pyEdgeEval/utils/logger.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyEdgeEval/utils/logger.py b/pyEdgeEval/utils/logger.py
index 8632123..fd6af4a 100644
--- a/pyEdgeEval/utils/logger.py
+++ b/pyEdgeEval/utils/logger.py
@@ -7,9 +7,11 @@
 """
 
 import logging
+import threading
 
 
 logger_initialized: dict = {}
+_init_lock = threading.Lock()
 
 
 def get_logger(name, log_file=None, log_level=logging.INFO, file_mode="w"):
@@ -34,6 +36,12 @@ def get_logger(name, log_file=None, log_level=logging.INFO, file_mode="w"):
     Returns:
         logging.Logger: The expected logger.
     """
+    # several threads may ask for the same logger before it is initialized
+    with _init_lock:
+        return _get_logger(name, log_file, log_level, file_mode)
+
+
+def _get_logger(name, log_file, log_level, file_mode):
     logger = logging.getLogger(name)
     if name in logger_initialized:
         return logger
-- 
2.43.0


From d0f6995d276b73db1e3923b67c70ed54059f0fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 05/21] fix: stop the workers when track_parallel_progress
 fails

When a task raised or the caller was interrupted the pool was left running: its
workers went on with the remaining tasks, and went on writing their outputs,
after the call had failed.
---
 pyEdgeEval/utils/progressbar.py | 44 +++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/pyEdgeEval/utils/progressbar.py b/pyEdgeEval/utils/progressbar.py
index b237ecb..4f0cddc 100644
--- a/pyEdgeEval/utils/progressbar.py
+++ b/pyEdgeEval/utils/progressbar.py
@@ -179,26 +179,32 @@ def track_parallel_progress(
     pool = init_pool(nproc, initializer, initargs)
     start = not skip_first
     task_num -= nproc * chunksize * int(skip_first)
-    if not no_bar:
-        prog_bar = ProgressBar(task_num, bar_width, start, file=file)
-    results = []
-    if keep_order:
-        gen = pool.imap(func, tasks, chunksize)
-    else:
-        gen = pool.imap_unordered(func, tasks, chunksize)
-    for result in gen:
-        results.append(result)
-        if skip_first:
-            if len(results) < nproc * chunksize:
-                continue
-            elif len(results) == nproc * chunksize:
-                if not no_bar:
-                    prog_bar.start()
-                continue
+    try:
         if not no_bar:
-            prog_bar.update()
-    if not no_bar:
-        prog_bar.file.write("\n")
+            prog_bar = ProgressBar(task_num, bar_width, start, file=file)
+        results = []
+        if keep_order:
+            gen = pool.imap(func, tasks, chunksize)
+        else:
+            gen = pool.imap_unordered(func, tasks, chunksize)
+        for result in gen:
+            results.append(result)
+            if skip_first:
+                if len(results) < nproc * chunksize:
+                    continue
+                elif len(results) == nproc * chunksize:
+                    if not no_bar:
+                        prog_bar.start()
+                    continue
+            if not no_bar:
+                prog_bar.update()
+        if not no_bar:
+            prog_bar.file.write("\n")
+    except BaseException:
+        # don't leave workers behind that go on with the remaining tasks
+        pool.terminate()
+        pool.join()
+        raise
     pool.close()
     pool.join()
     return results
-- 
2.43.0


From 9c35e829c9cbff8f56903780de51e606ee5f61f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 06/21] fix: save edges in the bin format

ndarray.tofile() has no dtype argument, so that converting with ext="bin" always
failed with a TypeError.
---
 pyEdgeEval/helpers/convert_cityscapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyEdgeEval/helpers/convert_cityscapes.py b/pyEdgeEval/helpers/convert_cityscapes.py
index 4b1909b..1972cac 100644
--- a/pyEdgeEval/helpers/convert_cityscapes.py
+++ b/pyEdgeEval/helpers/convert_cityscapes.py
@@ -183,7 +183,7 @@ def convert_label_to_semantic_edges(
         edges_img.save(proc_file)
     elif save_format == ".bin":
         edges = default_multilabel_encoding(edge_trainIds)
-        edges.tofile(proc_file, dtype=np.uint32)
+        edges.astype(np.uint32).tofile(proc_file)
     else:
         raise ValueError()
 
-- 
2.43.0


From af29a7b32204b9eb25664ce8db8b13c2b278ccd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 07/21] fix: save the outputs of nms_results and
 nms_all_results whole

An output that exists is skipped, but a run that was stopped while it saved one
left it torn, and a failed save went unnoticed, so that it stayed torn for good.
nms_results also named its outputs after the first character of the inputs and
did not skip those it said it skipped.
---
 pyEdgeEval/preprocess/nms/fast_nms.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pyEdgeEval/preprocess/nms/fast_nms.py b/pyEdgeEval/preprocess/nms/fast_nms.py
index 5ed4dee..c601a05 100644
--- a/pyEdgeEval/preprocess/nms/fast_nms.py
+++ b/pyEdgeEval/preprocess/nms/fast_nms.py
@@ -107,22 +107,34 @@ def nms_process_one_image(img, save_path=None, save=True):
     return out
 
 
+def _save_png(save_name, out):
+    """Save completely or not at all: an existing output is taken as done"""
+    ok, png = cv2.imencode(".png", out)
+    if not ok:
+        raise OSError(f"could not encode {save_name}")
+    tmp_name = save_name + ".tmp"
+    with open(tmp_name, "wb") as f:
+        f.write(png.tobytes())
+    os.replace(tmp_name, save_name)
+
+
 def nms_results(result_dir, save_dir, loader):
     assert os.path.exists(result_dir), f"ERR: {result_dir} does not exist"
     if not os.path.isdir(save_dir):
         os.makedirs(save_dir)
 
     for file in os.listdir(result_dir):
-        save_name = os.path.join(save_dir, f"{os.path.splitext(file[0])}.png")
+        save_name = os.path.join(save_dir, f"{os.path.splitext(file)[0]}.png")
         if os.path.isfile(save_name):
             print(f"file: {save_name} exists... skipping")
+            continue
         img_path = os.path.join(result_dir, file)
         # load image
         img = loader(img_path)
         # nms preprocess
         out = fast_nms(img, r=1, s=5, m=1.01, return_as_uint8=True)
         # save output
-        cv2.imwrite(save_name, out)
+        _save_png(save_name, out)
 
 
 def nms_all_results(
@@ -157,4 +169,4 @@ def nms_all_results(
                 raise NotImplementedError
             out = fast_nms(image, r=1, s=5, m=1.01, return_as_uint8=True)
             # save output
-            cv2.imwrite(save_name, out)
+            _save_png(save_name, out)
-- 
2.43.0


From 6e61fd0eb9d00e0fd5358fd78adb5c43d913ea0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 08/21] fix: use the category's own segmentation in the SBD
 evaluation

The labelIds of SBD start from 1, as the categories do, so kill_internal
masked the predictions with the segmentation of the preceding category.
---
 pyEdgeEval/datasets/sbd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyEdgeEval/datasets/sbd.py b/pyEdgeEval/datasets/sbd.py
index 6c86c74..98b1e8c 100644
--- a/pyEdgeEval/datasets/sbd.py
+++ b/pyEdgeEval/datasets/sbd.py
@@ -61,8 +61,8 @@ def _evaluate_single(
         # obtain binary map
 
         # need to be careful where the category starts
-        # some datasets will skip 0 and start from 1 (like sbd)
-        cat_seg = seg == cat_idx
+        # SBD's labelIds start from 1 (0 is the background)
+        cat_seg = seg == category
     else:
         cat_seg = None
 
-- 
2.43.0


From 7f14aa4658cc89cb8dd3521c74421dbc18bda205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 09/21] fix: initialize a logger whose name only starts like
 another's

"run10" is not a child of "run1": without handlers of its own its messages
were lost.
---
 pyEdgeEval/utils/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyEdgeEval/utils/logger.py b/pyEdgeEval/utils/logger.py
index fd6af4a..f30d66e 100644
--- a/pyEdgeEval/utils/logger.py
+++ b/pyEdgeEval/utils/logger.py
@@ -49,7 +49,7 @@ def _get_logger(name, log_file, log_level, file_mode):
     # e.g., logger "a" is initialized, then logger "a.b" will skip the
     # initialization since it is a child of "a".
     for logger_name in logger_initialized:
-        if name.startswith(logger_name):
+        if name.startswith(f"{logger_name}."):
             return logger
 
     stream_handler = logging.StreamHandler()
-- 
2.43.0


From 6c5d12bd2bfb186a8f5667f7d13fa96cfbbaf186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:59 +0000
Subject: [PATCH 10/21] fix: pass the prediction suffix on in evaluate_sbd

---
 pyEdgeEval/helpers/evaluate_sbd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyEdgeEval/helpers/evaluate_sbd.py b/pyEdgeEval/helpers/evaluate_sbd.py
index fa68114..8543686 100644
--- a/pyEdgeEval/helpers/evaluate_sbd.py
+++ b/pyEdgeEval/helpers/evaluate_sbd.py
@@ -178,6 +178,7 @@ def evaluate(
     evaluator = SBDEvaluator(
         dataset_root=sbd_path,
         pred_root=pred_path,
+        pred_suffix=pred_suffix,
         thin=apply_thinning,
         gt_dir=gt_dir,  # NOTE: we can change the directory where the preprocessed GTs are located
     )
-- 
2.43.0


From 5ef4fabd1d251e37bb91faf738ac6661202652b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:59 +0000
Subject: [PATCH 11/21] fix: evaluate_reanno_sbd passed an argument
 evaluate_reanno does not take

---
 pyEdgeEval/helpers/evaluate_sbd.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pyEdgeEval/helpers/evaluate_sbd.py b/pyEdgeEval/helpers/evaluate_sbd.py
index 8543686..0925462 100644
--- a/pyEdgeEval/helpers/evaluate_sbd.py
+++ b/pyEdgeEval/helpers/evaluate_sbd.py
@@ -368,7 +368,6 @@ def evaluate_reanno_sbd(gt_dir: str = "gtEval"):
         apply_thinning=apply_thinning,
         apply_nms=args.apply_nms,
         nonIS=args.nonIS,
-        max_dist=args.max_dist,
         thresholds=args.thresholds,
         nproc=args.nproc,
     )
-- 
2.43.0


From 86bec63ea56979ea54cf853f692a9b97cde3f8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:17 +0000
Subject: [PATCH 12/21] fix: write a message once when a parent logger is
 initialized after its child

get_logger("a.b") followed by get_logger("a") left both with handlers, so that
every message of "a.b" was written twice.
---
 pyEdgeEval/utils/logger.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyEdgeEval/utils/logger.py b/pyEdgeEval/utils/logger.py
index f30d66e..26931b6 100644
--- a/pyEdgeEval/utils/logger.py
+++ b/pyEdgeEval/utils/logger.py
@@ -51,6 +51,11 @@ def _get_logger(name, log_file, log_level, file_mode):
     for logger_name in logger_initialized:
         if name.startswith(f"{logger_name}."):
             return logger
+    # the other way round, "a.b" was initialized with its own handlers and must
+    # not write its messages a second time through those of "a".
+    for logger_name in logger_initialized:
+        if logger_name.startswith(f"{name}."):
+            logging.getLogger(logger_name).propagate = False
 
     stream_handler = logging.StreamHandler()
     handlers = [stream_handler]
-- 
2.43.0


From 61bd1f87c3b4073c2858226b1f42a8ded87dbecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:00 +0000
Subject: [PATCH 13/21] fix: convert Cityscapes under a root path that contains
 "gtFine"

---
 pyEdgeEval/helpers/convert_cityscapes.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pyEdgeEval/helpers/convert_cityscapes.py b/pyEdgeEval/helpers/convert_cityscapes.py
index 1972cac..9ae75b8 100644
--- a/pyEdgeEval/helpers/convert_cityscapes.py
+++ b/pyEdgeEval/helpers/convert_cityscapes.py
@@ -40,6 +40,15 @@ from pyEdgeEval.datasets.cityscapes_attributes import (
 __all__ = ["convert_cityscapes", "test_against_matlab"]
 
 
+def get_proc_dir(gt_dir: str, proc_dir: str) -> str:
+    """`<root>/gtFine/<split>/<city>` to `<root>/<proc_dir>/<split>/<city>`
+
+    NOTE: only the last "gtFine" is replaced, since the path of the dataset may
+    contain it too (`gtFine_trainvaltest`)
+    """
+    return proc_dir.join(gt_dir.rsplit("gtFine", 1))
+
+
 def convert_json_to_label(
     json_file: str,
     proc_dir: str = "gtEval",
@@ -48,7 +57,7 @@ def convert_json_to_label(
 ) -> None:
     json_dir = osp.dirname(json_file)
     json_fn = osp.basename(json_file)
-    proc_dir = json_dir.replace("gtFine", proc_dir)
+    proc_dir = get_proc_dir(json_dir, proc_dir)
     proc_fn = json_fn.replace(poly_suffix, id_suffix)
     mkdir_or_exist(proc_dir)
     proc_file = osp.join(proc_dir, proc_fn)
@@ -97,7 +106,7 @@ def convert_label_to_semantic_edges(
         assert radius == 1, "ERR: `thin` requires radius=1"
     label_dir = osp.dirname(label_file)
     label_fn = osp.basename(label_file)
-    proc_dir = label_dir.replace("gtFine", proc_dir)
+    proc_dir = get_proc_dir(label_dir, proc_dir)
     proc_fn = label_fn.replace(label_suffix, edge_suffix)
 
     mkdir_or_exist(proc_dir)
-- 
2.43.0


From c8c309bce35b1dda539b35018bd8ceaff00219b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:21 +0000
Subject: [PATCH 14/21] fix: report a task that exits instead of waiting for it
 forever

---
 pyEdgeEval/utils/progressbar.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pyEdgeEval/utils/progressbar.py b/pyEdgeEval/utils/progressbar.py
index 4f0cddc..9f9790e 100644
--- a/pyEdgeEval/utils/progressbar.py
+++ b/pyEdgeEval/utils/progressbar.py
@@ -126,6 +126,23 @@ def init_pool(process_num, initializer=None, initargs=None):
         return Pool(process_num, initializer, initargs)
 
 
+class _Task:
+    """Report a task that exits as any other failure.
+
+    SystemExit would end the worker process, and the pool would wait for the
+    result of that task forever.
+    """
+
+    def __init__(self, func):
+        self.func = func
+
+    def __call__(self, task):
+        try:
+            return self.func(task)
+        except SystemExit as e:
+            raise RuntimeError(f"the task exited: {e.code}") from e
+
+
 def track_parallel_progress(
     func,
     tasks,
@@ -176,6 +193,7 @@ def track_parallel_progress(
         raise TypeError(
             '"tasks" must be an iterable object or a (iterator, int) tuple'
         )
+    func = _Task(func)
     pool = init_pool(nproc, initializer, initargs)
     start = not skip_first
     task_num -= nproc * chunksize * int(skip_first)
-- 
2.43.0


From 1864a5eea3e767b9dd2ca1269be9500a1f0c9f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:59 +0000
Subject: [PATCH 15/21] fix: encode more than 8 classes with numpy 2 (tif and
 bin formats)

---
 pyEdgeEval/common/multi_label/edge_encoding.py | 2 +-
 pyEdgeEval/utils/convert_formats.py            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyEdgeEval/common/multi_label/edge_encoding.py b/pyEdgeEval/common/multi_label/edge_encoding.py
index 22945b0..e728933 100644
--- a/pyEdgeEval/common/multi_label/edge_encoding.py
+++ b/pyEdgeEval/common/multi_label/edge_encoding.py
@@ -22,7 +22,7 @@ def default_multilabel_encoding(edges: np.ndarray):
     cat_edge_map = np.zeros((h, w), dtype=np.uint32)
     for trainId in range(num_classes):
         edge_map = edges[trainId]
-        cat_edge_map = cat_edge_map + (2**trainId) * edge_map
+        cat_edge_map = cat_edge_map + np.uint32(2**trainId) * edge_map
 
     return cat_edge_map
 
diff --git a/pyEdgeEval/utils/convert_formats.py b/pyEdgeEval/utils/convert_formats.py
index 35e1ef7..4b43e27 100644
--- a/pyEdgeEval/utils/convert_formats.py
+++ b/pyEdgeEval/utils/convert_formats.py
@@ -36,7 +36,7 @@ def edge_onehot2multilabel(edges: np.ndarray) -> np.ndarray:
     edge_map = np.zeros((h, w), dtype=np.uint32)
     for l in range(labels):
         m = edges[l]
-        edge_map = edge_map + (2**l) * m
+        edge_map = edge_map + np.uint32(2**l) * m
 
     return edge_map
 
-- 
2.43.0


From 172fd45fbaf484f4595f9d903ad15347b5f6bb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:20 +0000
Subject: [PATCH 16/21] fix: read the sparse arrays that newer versions of
 scipy load

---
 pyEdgeEval/utils/mat_utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyEdgeEval/utils/mat_utils.py b/pyEdgeEval/utils/mat_utils.py
index 7b4c518..62c32ce 100644
--- a/pyEdgeEval/utils/mat_utils.py
+++ b/pyEdgeEval/utils/mat_utils.py
@@ -4,7 +4,7 @@ import os
 
 # libraries used for .mat io
 from scipy.io import loadmat as scipy_loadmat
-from scipy.sparse import csc_matrix
+from scipy.sparse import csc_matrix, issparse
 
 try:
     # prefer `pymatreader`
@@ -35,7 +35,8 @@ def loadmat(
 
 def sparse2numpy(data: csc_matrix):
     """helper function to convert compressed sparse column matrix to numpy array"""
-    assert isinstance(
-        data, csc_matrix
+    # newer versions of scipy load sparse arrays instead of matrices
+    assert (
+        issparse(data) and data.format == "csc"
     ), f"ERR: input is not csc_matrix, but got {type(data)}"
     return data.toarray()
-- 
2.43.0


From 14f0326c1f3321c187db6b6c4bf41890e3bd0f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:20 +0000
Subject: [PATCH 17/21] fix: save SBD instance ids as 16-bit PNG, which newer
 versions of Pillow require

---
 pyEdgeEval/helpers/convert_sbd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyEdgeEval/helpers/convert_sbd.py b/pyEdgeEval/helpers/convert_sbd.py
index 59ac25d..af5570c 100644
--- a/pyEdgeEval/helpers/convert_sbd.py
+++ b/pyEdgeEval/helpers/convert_sbd.py
@@ -351,8 +351,8 @@ def routine(
         )
         train_img.save(osp.join(save_dir, f"{sample_name}{train_suffix}"))
 
-        # save instance
-        inst_img = Image.fromarray(inst)
+        # save instance (16-bit; newer versions of Pillow cannot save int32)
+        inst_img = Image.fromarray(inst.astype(np.uint16))
         inst_img.save(osp.join(save_dir, f"{sample_name}{inst_suffix}"))
 
 
-- 
2.43.0


From a54919fc0bba4ff550e270cc7c41c5932d0e65f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:43 +0000
Subject: [PATCH 18/21] fix: convert a re-annotated SBD list of a single sample

---
 pyEdgeEval/helpers/convert_sbd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyEdgeEval/helpers/convert_sbd.py b/pyEdgeEval/helpers/convert_sbd.py
index af5570c..55bc446 100644
--- a/pyEdgeEval/helpers/convert_sbd.py
+++ b/pyEdgeEval/helpers/convert_sbd.py
@@ -378,7 +378,7 @@ def load_reanno_samples(path: str, new_loader: bool = False):
     else:
         test = loadmat(path, False)["listTest"]
         # HACK: nested structured array of string
-        test = [t.tolist()[0] for t in test.squeeze()]
+        test = [t.tolist()[0] for t in test.ravel()]
 
     return test
 
-- 
2.43.0


From 57c69c66549f2190838136ad90b670e06033dbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:42 +0000
Subject: [PATCH 19/21] fix: report a full disk when saving edges in the tif
 and bin formats

---
 pyEdgeEval/helpers/convert_cityscapes.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyEdgeEval/helpers/convert_cityscapes.py b/pyEdgeEval/helpers/convert_cityscapes.py
index 9ae75b8..62dd938 100644
--- a/pyEdgeEval/helpers/convert_cityscapes.py
+++ b/pyEdgeEval/helpers/convert_cityscapes.py
@@ -9,6 +9,7 @@ TODO:
 
 import os.path as osp
 from functools import partial
+from io import BytesIO
 
 import cv2
 import numpy as np
@@ -189,10 +190,17 @@ def convert_label_to_semantic_edges(
         edges = default_multilabel_encoding(edge_trainIds)
         edges = edges.view(np.int32)
         edges_img = Image.fromarray(edges)
-        edges_img.save(proc_file)
+        # NOTE: Pillow ignores short writes (full disk) when it saves this
+        # format to a file itself
+        buf = BytesIO()
+        edges_img.save(buf, format="TIFF")
+        with open(proc_file, "wb") as f:
+            f.write(buf.getvalue())
     elif save_format == ".bin":
         edges = default_multilabel_encoding(edge_trainIds)
-        edges.astype(np.uint32).tofile(proc_file)
+        # NOTE: `tofile` ignores errors when it closes the file (full disk)
+        with open(proc_file, "wb") as f:
+            f.write(edges.astype(np.uint32).tobytes())
     else:
         raise ValueError()
 
-- 
2.43.0


From 5e4a22b9220692a1a616588f432b57ab6c3dea34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:31 +0000
Subject: [PATCH 20/21] fix: raise when a worker process is killed instead of
 waiting for its task forever

---
 pyEdgeEval/edge_tools/mask2edge_mp.py |  7 +++-
 pyEdgeEval/utils/progressbar.py       | 59 ++++++++++++++++++++++++---
 2 files changed, 58 insertions(+), 8 deletions(-)

diff --git a/pyEdgeEval/edge_tools/mask2edge_mp.py b/pyEdgeEval/edge_tools/mask2edge_mp.py
index a416bb2..60d4296 100644
--- a/pyEdgeEval/edge_tools/mask2edge_mp.py
+++ b/pyEdgeEval/edge_tools/mask2edge_mp.py
@@ -15,6 +15,7 @@ from multiprocessing import Pool, RawArray
 import numpy as np
 
 from pyEdgeEval.utils import mask2bdry
+from pyEdgeEval.utils.progressbar import wait_result
 
 __all__ = [
     "mp_mask2edge",
@@ -137,7 +138,8 @@ def mp_mask2edge(
         processes=nproc, initializer=_init_worker, initargs=[args]
     ) as pool:
         # order doesn't really matter since we specify which index to compute
-        pool.map(_worker_func, range(num_labels))
+        workers = list(pool._pool)
+        wait_result(pool.map_async(_worker_func, range(num_labels)), workers)
 
     edge = np.frombuffer(mp_edge, dtype=edge.dtype).reshape(edge.shape)
 
@@ -303,7 +305,8 @@ def mp_instance_mask2edge(
         processes=nproc, initializer=_init_worker, initargs=[args]
     ) as pool:
         # order doesn't really matter since we specify which index to compute
-        pool.map(_instance_worker_func, range(num_labels))
+        workers = list(pool._pool)
+        wait_result(pool.map_async(_instance_worker_func, range(num_labels)), workers)
 
     edge = np.frombuffer(mp_edge, dtype=edge.dtype).reshape(edge.shape)
 
diff --git a/pyEdgeEval/utils/progressbar.py b/pyEdgeEval/utils/progressbar.py
index 9f9790e..2af3670 100644
--- a/pyEdgeEval/utils/progressbar.py
+++ b/pyEdgeEval/utils/progressbar.py
@@ -8,7 +8,8 @@
 
 import sys
 from collections.abc import Iterable
-from multiprocessing import Pool
+from itertools import islice
+from multiprocessing import Pool, TimeoutError
 from shutil import get_terminal_size
 
 from .timer import Timer
@@ -126,6 +127,49 @@ def init_pool(process_num, initializer=None, initargs=None):
         return Pool(process_num, initializer, initargs)
 
 
+def _check_workers(workers):
+    """Raise if a worker process was killed (e.g. out of memory).
+
+    The pool replaces the process, but the task it was working on is lost, and
+    the pool would wait for the result of that task forever.
+    """
+    if any(worker.exitcode is not None for worker in workers):
+        raise RuntimeError("a worker process died")
+
+
+def wait_result(result, workers):
+    """`result.get()`, but raise if one of the worker processes was killed"""
+    while not result.ready():
+        result.wait(1)
+        if not result.ready():
+            _check_workers(workers)
+    return result.get()
+
+
+def _iter_results(gen, workers):
+    """Iterate chunks, but raise if one of the worker processes was killed"""
+    while True:
+        try:
+            chunk = gen.next(timeout=1)
+        except StopIteration:
+            return
+        except TimeoutError as e:
+            if e.__cause__ is not None:
+                raise  # raised by a task
+            _check_workers(workers)
+            continue
+        yield from chunk
+
+
+def _chunks(tasks, chunksize):
+    tasks = iter(tasks)
+    while True:
+        chunk = list(islice(tasks, chunksize))
+        if not chunk:
+            return
+        yield chunk
+
+
 class _Task:
     """Report a task that exits as any other failure.
 
@@ -136,9 +180,9 @@ class _Task:
     def __init__(self, func):
         self.func = func
 
-    def __call__(self, task):
+    def __call__(self, chunk):
         try:
-            return self.func(task)
+            return [self.func(task) for task in chunk]
         except SystemExit as e:
             raise RuntimeError(f"the task exited: {e.code}") from e
 
@@ -193,8 +237,11 @@ def track_parallel_progress(
         raise TypeError(
             '"tasks" must be an iterable object or a (iterator, int) tuple'
         )
+    if chunksize < 1:
+        raise ValueError(f"Chunksize must be 1+, not {chunksize}")
     func = _Task(func)
     pool = init_pool(nproc, initializer, initargs)
+    workers = list(pool._pool)
     start = not skip_first
     task_num -= nproc * chunksize * int(skip_first)
     try:
@@ -202,10 +249,10 @@ def track_parallel_progress(
             prog_bar = ProgressBar(task_num, bar_width, start, file=file)
         results = []
         if keep_order:
-            gen = pool.imap(func, tasks, chunksize)
+            gen = pool.imap(func, _chunks(tasks, chunksize))
         else:
-            gen = pool.imap_unordered(func, tasks, chunksize)
-        for result in gen:
+            gen = pool.imap_unordered(func, _chunks(tasks, chunksize))
+        for result in _iter_results(gen, workers):
             results.append(result)
             if skip_first:
                 if len(results) < nproc * chunksize:
-- 
2.43.0


From 0a17d3ff95b3eb5f58cb66bb6dcdd79463fbb910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:26 +0000
Subject: [PATCH 21/21] fix: report every failure of a task of a parallel map

---
 pyEdgeEval/utils/progressbar.py | 54 ++++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 14 deletions(-)

diff --git a/pyEdgeEval/utils/progressbar.py b/pyEdgeEval/utils/progressbar.py
index 2af3670..67585ef 100644
--- a/pyEdgeEval/utils/progressbar.py
+++ b/pyEdgeEval/utils/progressbar.py
@@ -10,6 +10,7 @@ import sys
 from collections.abc import Iterable
 from itertools import islice
 from multiprocessing import Pool, TimeoutError
+from multiprocessing.reduction import ForkingPickler
 from shutil import get_terminal_size
 
 from .timer import Timer
@@ -158,23 +159,36 @@ def _iter_results(gen, workers):
                 raise  # raised by a task
             _check_workers(workers)
             continue
-        yield from chunk
+        yield from ForkingPickler.loads(chunk)
 
 
-def _chunks(tasks, chunksize):
-    tasks = iter(tasks)
-    while True:
-        chunk = list(islice(tasks, chunksize))
-        if not chunk:
-            return
-        yield chunk
+class _Chunks:
+    """The tasks in chunks; an error raised by the tasks is kept"""
+
+    def __init__(self, tasks, chunksize):
+        self.tasks = tasks
+        self.chunksize = chunksize
+        self.error = None
+
+    def __iter__(self):
+        try:
+            tasks = iter(self.tasks)
+            while True:
+                chunk = list(islice(tasks, self.chunksize))
+                if not chunk:
+                    return
+                yield chunk
+        except BaseException as e:
+            self.error = e
 
 
 class _Task:
-    """Report a task that exits as any other failure.
+    """Report every failure of a task in a way that gets through the pool.
 
-    SystemExit would end the worker process, and the pool would wait for the
-    result of that task forever.
+    SystemExit would end the worker process, StopIteration would look like the
+    end of the results, and the thread of the pool that receives the results
+    does not survive an object which can be pickled but not unpickled; so the
+    results are only unpickled by the caller.
     """
 
     def __init__(self, func):
@@ -182,9 +196,18 @@ class _Task:
 
     def __call__(self, chunk):
         try:
-            return [self.func(task) for task in chunk]
+            results = [self.func(task) for task in chunk]
+            return bytes(ForkingPickler.dumps(results))
         except SystemExit as e:
             raise RuntimeError(f"the task exited: {e.code}") from e
+        except StopIteration as e:
+            raise RuntimeError("the task raised StopIteration") from e
+        except Exception as e:
+            try:
+                ForkingPickler.loads(ForkingPickler.dumps(e))
+            except Exception:
+                raise RuntimeError(f"the task failed: {e!r}") from None
+            raise
 
 
 def track_parallel_progress(
@@ -248,10 +271,11 @@ def track_parallel_progress(
         if not no_bar:
             prog_bar = ProgressBar(task_num, bar_width, start, file=file)
         results = []
+        chunks = _Chunks(tasks, chunksize)
         if keep_order:
-            gen = pool.imap(func, _chunks(tasks, chunksize))
+            gen = pool.imap(func, chunks)
         else:
-            gen = pool.imap_unordered(func, _chunks(tasks, chunksize))
+            gen = pool.imap_unordered(func, chunks)
         for result in _iter_results(gen, workers):
             results.append(result)
             if skip_first:
@@ -263,6 +287,8 @@ def track_parallel_progress(
                     continue
             if not no_bar:
                 prog_bar.update()
+        if chunks.error is not None:
+            raise chunks.error
         if not no_bar:
             prog_bar.file.write("\n")
     except BaseException:
-- 
2.43.0

