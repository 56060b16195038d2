From f2884cc59eb568209e3490c4e469a04f57b09f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:41 +0000
Subject: [PATCH 01/46] fix: Tracker.update accepts detections=None together
 with coord_transformations

---
 norfair/tracker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index 275ecee..1aced94 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -176,7 +176,7 @@ class Tracker:
         List[TrackedObject]
             The list of active tracked objects.
         """
-        if coord_transformations is not None:
+        if coord_transformations is not None and detections is not None:
             for det in detections:
                 det.update_coordinate_transformation(coord_transformations)
 
-- 
2.43.0


From 6e7e4bcd3b30ef12fcd7b74c39294a71a1b15d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:43 +0000
Subject: [PATCH 02/46] fix: snap the coordinates of the points detected for
 the first time, not of others

---
 norfair/tracker.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index 1aced94..45734f8 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -662,9 +662,7 @@ class TrackedObject:
         detected_at_least_once_mask = np.array(
             [(m,) * self.dim_points for m in self.detected_at_least_once_points]
         ).flatten()
-        now_detected_mask = np.hstack(
-            (points_over_threshold_mask,) * self.dim_points
-        ).flatten()
+        now_detected_mask = np.repeat(points_over_threshold_mask, self.dim_points)
         first_detection_mask = np.logical_and(
             now_detected_mask, np.logical_not(detected_at_least_once_mask)
         )
-- 
2.43.0


From d10f6823c36d136a94f560ec958796b7b7015b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:45 +0000
Subject: [PATCH 03/46] fix: matching no longer loops forever when threshold +
 1 is not representable in float32

---
 norfair/tracker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index 45734f8..3dc262b 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -376,8 +376,8 @@ class Tracker:
                 obj_idx = flattened_arg_min % distance_matrix.shape[1]
                 det_idxs.append(det_idx)
                 obj_idxs.append(obj_idx)
-                distance_matrix[det_idx, :] = distance_threshold + 1
-                distance_matrix[:, obj_idx] = distance_threshold + 1
+                distance_matrix[det_idx, :] = np.inf
+                distance_matrix[:, obj_idx] = np.inf
                 current_min = distance_matrix.min()
 
             return det_idxs, obj_idxs
-- 
2.43.0


From f891c001fa532444b1e74d5eaf451f9e4349743b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:47 +0000
Subject: [PATCH 04/46] fix: stop the ReID countdown of an object that is
 matched to a detection again

---
 norfair/tracker.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index 3dc262b..ceb99e0 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -626,6 +626,8 @@ class TrackedObject:
 
         self.last_detection = detection
         self.hit_counter = min(self.hit_counter + 2 * period, self.hit_counter_max)
+        # A matched object is alive, stop counting down to its ReID expiration
+        self.reid_hit_counter = None
 
         if self.is_initializing and self.hit_counter > self.initialization_delay:
             self.is_initializing = False
-- 
2.43.0


From 33651d8eea550e983f6bd4b1f98fadcf26401057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:49 +0000
Subject: [PATCH 05/46] fix: points matched after a long gap are live again
 right away

---
 norfair/tracker.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index ceb99e0..eff128e 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -655,6 +655,10 @@ class TrackedObject:
             self.point_hit_counter >= self.pointwise_hit_counter_max
         ] = self.pointwise_hit_counter_max
         self.point_hit_counter[self.point_hit_counter < 0] = 0
+        # Points that were just matched are live, however long they had been missing
+        self.point_hit_counter[
+            np.logical_and(points_over_threshold_mask, self.point_hit_counter == 0)
+        ] = 1
         H_vel = np.zeros(H_pos.shape)  # But we don't directly measure velocity
         H = np.hstack([H_pos, H_vel])
         self.filter.update(
-- 
2.43.0


From 7cf65bed66c98b1f4a5e0d2e5640410c905a09d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:51 +0000
Subject: [PATCH 06/46] fix: do not transform a detection twice when it is fed
 to more than one tracker

---
 norfair/tracker.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index eff128e..7fc9d5f 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -791,6 +791,4 @@ class Detection:
         self, coordinate_transformation: CoordinatesTransformation
     ):
         if coordinate_transformation is not None:
-            self.absolute_points = coordinate_transformation.rel_to_abs(
-                self.absolute_points
-            )
+            self.absolute_points = coordinate_transformation.rel_to_abs(self.points)
-- 
2.43.0


From bbe19f9128ba259996beed5d8df69d1d82fffca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:37 +0000
Subject: [PATCH 07/46] fix: compare labels by equality in vectorized
 distances, not through their string form

---
 norfair/distances.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/norfair/distances.py b/norfair/distances.py
index d7d7e4c..b08deee 100644
--- a/norfair/distances.py
+++ b/norfair/distances.py
@@ -151,26 +151,33 @@ class VectorizedDistance(Distance):
         if not objects or not candidates:
             return distance_matrix
 
-        object_labels = np.array([o.label for o in objects]).astype(str)
-        candidate_labels = np.array([c.label for c in candidates]).astype(str)
+        object_labels = [o.label for o in objects]
+        candidate_labels = [c.label for c in candidates]
 
-        # iterate over labels that are present both in objects and detections
-        for label in np.intersect1d(
-            np.unique(object_labels), np.unique(candidate_labels)
-        ):
+        # labels are compared by equality, the same way ScalarDistance does
+        unique_labels = []
+        for label in candidate_labels:
+            if label not in unique_labels:
+                unique_labels.append(label)
+
+        for label in unique_labels:
             # generate masks of the subset of object and detections for this label
-            obj_mask = object_labels == label
-            cand_mask = candidate_labels == label
+            obj_mask = np.array([bool(l == label) for l in object_labels])
+            cand_mask = np.array([bool(l == label) for l in candidate_labels])
+
+            # skip labels that aren't present both in objects and detections
+            if not (obj_mask.any() and cand_mask.any()):
+                continue
 
             stacked_objects = []
-            for o in objects:
-                if str(o.label) == label:
+            for o, has_label in zip(objects, obj_mask):
+                if has_label:
                     stacked_objects.append(o.estimate.ravel())
             stacked_objects = np.stack(stacked_objects)
 
             stacked_candidates = []
-            for c in candidates:
-                if str(c.label) == label:
+            for c, has_label in zip(candidates, cand_mask):
+                if has_label:
                     if "Detection" in str(type(c)):
                         stacked_candidates.append(c.points.ravel())
                     else:
-- 
2.43.0


From 92259e88b584726ad558b5f4c0aafcdcb01eb912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:39 +0000
Subject: [PATCH 08/46] fix: accept uppercase hex colors such as the documented
 "#FF0000"

---
 norfair/drawing/color.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/norfair/drawing/color.py b/norfair/drawing/color.py
index 40fc4d9..b38a9fb 100644
--- a/norfair/drawing/color.py
+++ b/norfair/drawing/color.py
@@ -25,14 +25,14 @@ def hex_to_bgr(hex_value: str) -> ColorType:
     ValueError
         if the string is invalid
     """
-    if re.match("#[a-f0-9]{6}$", hex_value):
+    if re.match("#[a-fA-F0-9]{6}$", hex_value):
         return (
             int(hex_value[5:7], 16),
             int(hex_value[3:5], 16),
             int(hex_value[1:3], 16),
         )
 
-    if re.match("#[a-f0-9]{3}$", hex_value):
+    if re.match("#[a-fA-F0-9]{3}$", hex_value):
         return (
             int(hex_value[3] * 2, 16),
             int(hex_value[2] * 2, 16),
-- 
2.43.0


From 154bb214f5c6391cdb41eeb6475392e992bd2d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:41 +0000
Subject: [PATCH 09/46] fix: print_objects_as_table accepts objects that were
 never matched

---
 norfair/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/utils.py b/norfair/utils.py
index 98e0d90..0e58b3e 100644
--- a/norfair/utils.py
+++ b/norfair/utils.py
@@ -41,7 +41,7 @@ def print_objects_as_table(tracked_objects: Sequence):
             str(obj.id),
             str(obj.age),
             str(obj.hit_counter),
-            f"{obj.last_distance:.4f}",
+            "-" if obj.last_distance is None else f"{obj.last_distance:.4f}",
             str(obj.initializing_id),
         )
     console.print(table)
-- 
2.43.0


From 34617da678ed9dc99aa96d84884412c382a950a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:43 +0000
Subject: [PATCH 10/46] fix: draw_points can title objects whose points are all
 dead

---
 norfair/drawing/draw_points.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/norfair/drawing/draw_points.py b/norfair/drawing/draw_points.py
index e513e30..128d2c6 100644
--- a/norfair/drawing/draw_points.py
+++ b/norfair/drawing/draw_points.py
@@ -160,7 +160,9 @@ def draw_points(
                     )
 
         if draw_labels or draw_ids or draw_scores:
-            position = d.points[d.live_points].mean(axis=0)
+            # when every point is dead there are no live points to average
+            visible_points = d.points[d.live_points] if d.live_points.any() else d.points
+            position = visible_points.mean(axis=0)
             position -= radius
             text = _build_text(
                 d, draw_labels=draw_labels, draw_ids=draw_ids, draw_scores=draw_scores
-- 
2.43.0


From 18cc59f29b5fa612fb7a4c4e18dc8f21b011bffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:45 +0000
Subject: [PATCH 11/46] fix: draw_points returns the frame when there is
 nothing to draw

---
 norfair/drawing/draw_points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/drawing/draw_points.py b/norfair/drawing/draw_points.py
index 128d2c6..7376e35 100644
--- a/norfair/drawing/draw_points.py
+++ b/norfair/drawing/draw_points.py
@@ -113,7 +113,7 @@ def draw_points(
     # end
 
     if drawables is None:
-        return
+        return frame
 
     if text_color is not None:
         text_color = parse_color(text_color)
-- 
2.43.0


From 7392a0bdaa545a1dad926916a1043933ef4ad653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:46 +0000
Subject: [PATCH 12/46] fix: use the camera id in the autogenerated output file
 name

---
 norfair/video.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/video.py b/norfair/video.py
index 83abbd4..58828e1 100644
--- a/norfair/video.py
+++ b/norfair/video.py
@@ -258,7 +258,7 @@ class Video:
         if self.input_path is not None:
             file_name = self.input_path.split("/")[-1].split(".")[0]
         else:
-            file_name = "camera_{self.camera}"
+            file_name = f"camera_{self.camera}"
         file_name = f"{file_name}_out.{self.output_extension}"
 
         return os.path.join(self.output_path, file_name)
-- 
2.43.0


From 39b33d9c3267e6f6f7557d0c414cc00365e244aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:48 +0000
Subject: [PATCH 13/46] fix: Video.show accepts float downsample ratios

---
 norfair/video.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/norfair/video.py b/norfair/video.py
index 58828e1..29828d4 100644
--- a/norfair/video.py
+++ b/norfair/video.py
@@ -234,8 +234,8 @@ class Video:
             frame = cv2.resize(
                 frame,
                 (
-                    frame.shape[1] // downsample_ratio,
-                    frame.shape[0] // downsample_ratio,
+                    int(frame.shape[1] // downsample_ratio),
+                    int(frame.shape[0] // downsample_ratio),
                 ),
             )
         cv2.imshow("Output", frame)
-- 
2.43.0


From 664124500b6dbecf43d4a4d4a8fc756b61822364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:50 +0000
Subject: [PATCH 14/46] fix: evaluate sequences that have a single predicted
 box

---
 norfair/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/metrics.py b/norfair/metrics.py
index b1e056d..4ee3f5b 100644
--- a/norfair/metrics.py
+++ b/norfair/metrics.py
@@ -203,7 +203,7 @@ class Accumulators:
                 -1,
             ]
             if np.shape(self.matrix_predictions)[0] == 0:
-                self.matrix_predictions = new_row
+                self.matrix_predictions = [new_row]
             else:
                 self.matrix_predictions = np.vstack((self.matrix_predictions, new_row))
         self.frame_number += 1
-- 
2.43.0


From 872b9ddbbfc6b6012dae180e4fe81c160e8ada38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:52 +0000
Subject: [PATCH 15/46] fix: parse detection files that have one row or none

---
 norfair/metrics.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/norfair/metrics.py b/norfair/metrics.py
index 4ee3f5b..8f5cd01 100644
--- a/norfair/metrics.py
+++ b/norfair/metrics.py
@@ -110,7 +110,11 @@ class DetectionFileParser:
         # frame, id, bb_left, bb_top, bb_right, bb_down, conf, x, y, z
         detections_path = os.path.join(input_path, "det/det.txt")
 
-        self.matrix_detections = np.loadtxt(detections_path, dtype="f", delimiter=",")
+        self.matrix_detections = np.loadtxt(
+            detections_path, dtype="f", delimiter=",", ndmin=2
+        )
+        if self.matrix_detections.size == 0:
+            self.matrix_detections = np.empty((0, 10), dtype="f")
         row_order = np.argsort(self.matrix_detections[:, 0])
         self.matrix_detections = self.matrix_detections[row_order]
         # Coordinates refer to box corners
-- 
2.43.0


From 358c9783a52b4f94ebb38a2923a9982ee923855e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:53 +0000
Subject: [PATCH 16/46] fix: get_cutout does not wrap around the image for
 points outside of it

---
 norfair/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/norfair/utils.py b/norfair/utils.py
index 0e58b3e..6b80e51 100644
--- a/norfair/utils.py
+++ b/norfair/utils.py
@@ -64,6 +64,8 @@ def get_cutout(points, image):
     min_x = int(min(points[:, 0]))
     max_y = int(max(points[:, 1]))
     min_y = int(min(points[:, 1]))
+    # negative indices would wrap around to the other side of the image
+    min_x, max_x, min_y, max_y = (max(v, 0) for v in (min_x, max_x, min_y, max_y))
     return image[min_y:max_y, min_x:max_x]
 
 
-- 
2.43.0


From 63ef1b98ab7a21735471547616245717702b320a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:03 +0000
Subject: [PATCH 17/46] fix: hex colors followed by a newline are invalid

---
 norfair/drawing/color.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/norfair/drawing/color.py b/norfair/drawing/color.py
index b38a9fb..e71a5e3 100644
--- a/norfair/drawing/color.py
+++ b/norfair/drawing/color.py
@@ -25,14 +25,14 @@ def hex_to_bgr(hex_value: str) -> ColorType:
     ValueError
         if the string is invalid
     """
-    if re.match("#[a-fA-F0-9]{6}$", hex_value):
+    if re.fullmatch("#[a-fA-F0-9]{6}", hex_value):
         return (
             int(hex_value[5:7], 16),
             int(hex_value[3:5], 16),
             int(hex_value[1:3], 16),
         )
 
-    if re.match("#[a-fA-F0-9]{3}$", hex_value):
+    if re.fullmatch("#[a-fA-F0-9]{3}", hex_value):
         return (
             int(hex_value[3] * 2, 16),
             int(hex_value[2] * 2, 16),
-- 
2.43.0


From f2897a46874d08e700f2b6e8e0b58e3f41ae2b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:08 +0000
Subject: [PATCH 18/46] fix: random_color=False and color_by_label=False do not
 change the color strategy

---
 norfair/drawing/draw_boxes.py  | 6 ++++--
 norfair/drawing/draw_points.py | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/norfair/drawing/draw_boxes.py b/norfair/drawing/draw_boxes.py
index 57789db..756fa25 100644
--- a/norfair/drawing/draw_boxes.py
+++ b/norfair/drawing/draw_boxes.py
@@ -100,12 +100,14 @@ def draw_boxes(
         warn_once(
             'Parameter "random_color" is deprecated, set `color="random"` instead'
         )
-        color = "random"
+        if random_color:
+            color = "random"
     if color_by_label is not None:
         warn_once(
             'Parameter "color_by_label" is deprecated, set `color="by_label"` instead'
         )
-        color = "by_label"
+        if color_by_label:
+            color = "by_label"
     if detections is not None:
         warn_once('Parameter "detections" is deprecated, use "drawables" instead')
         drawables = detections
diff --git a/norfair/drawing/draw_points.py b/norfair/drawing/draw_points.py
index 7376e35..52bcb89 100644
--- a/norfair/drawing/draw_points.py
+++ b/norfair/drawing/draw_points.py
@@ -99,7 +99,8 @@ def draw_points(
         warn_once(
             'Parameter "color_by_label" on function draw_points is deprecated, set `color="by_label"` instead'
         )
-        color = "by_label"
+        if color_by_label:
+            color = "by_label"
     if detections is not None:
         warn_once(
             "Parameter 'detections' on function draw_points is deprecated, use 'drawables' instead"
-- 
2.43.0


From 57d4bee9b6c353bebb6e0985a2d9819acf8411a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:10 +0000
Subject: [PATCH 19/46] fix: points of a Drawable are alive when live_points is
 not given

---
 norfair/drawing/drawer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/norfair/drawing/drawer.py b/norfair/drawing/drawer.py
index 8365714..8be2c35 100644
--- a/norfair/drawing/drawer.py
+++ b/norfair/drawing/drawer.py
@@ -356,6 +356,8 @@ class Drawable:
             self.id = id
             self.label = label
             self.scores = scores
+            if live_points is None and points is not None:
+                live_points = np.ones(len(points), dtype=bool)
             self.live_points = live_points
         else:
             raise ValueError(
-- 
2.43.0


From 0ef7183a3bc163d48500549b51f756493a9eed4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:39 +0000
Subject: [PATCH 20/46] fix: load_motchallenge says what to install when pandas
 is missing

---
 norfair/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/metrics.py b/norfair/metrics.py
index 8f5cd01..b9c1494 100644
--- a/norfair/metrics.py
+++ b/norfair/metrics.py
@@ -13,7 +13,7 @@ except ImportError:
     from .utils import DummyMOTMetricsImport
 
     mm = DummyMOTMetricsImport()
-    pandas = DummyMOTMetricsImport()
+    pd = DummyMOTMetricsImport()
 from collections import OrderedDict
 
 
-- 
2.43.0


From 8048c5a324ee3bf8677cb2d07f7e0e0ab3d5c002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:48 +0000
Subject: [PATCH 21/46] fix: Drawer.cross accepts the center as a tuple

---
 norfair/drawing/drawer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/norfair/drawing/drawer.py b/norfair/drawing/drawer.py
index 8be2c35..4e9e722 100644
--- a/norfair/drawing/drawer.py
+++ b/norfair/drawing/drawer.py
@@ -205,8 +205,8 @@ class Drawer:
             The resulting frame.
         """
         middle_x, middle_y = center
-        left, top = center - radius
-        right, bottom = center + radius
+        left, top = middle_x - radius, middle_y - radius
+        right, bottom = middle_x + radius, middle_y + radius
         frame = cls.line(
             frame,
             start=(middle_x, top),
-- 
2.43.0


From 7ab5f1b297ed79dc354512eb6e5e0cdc45b3f933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:25 +0000
Subject: [PATCH 22/46] fix: refuse things that are not detections also when
 they match an object

---
 norfair/tracker.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index 7fc9d5f..ccfd13b 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -335,6 +335,10 @@ class Tracker:
                             # If we are matching TrackedObject instances we want to get rid of the
                             # already matched candidate to avoid matching it again in future frames
                             self.tracked_objects.remove(matched_candidate)
+                        else:
+                            raise ValueError(
+                                f"\n[red]ERROR[/red]: The detection list fed into `tracker.update()` should be composed of {Detection} objects not {type(matched_candidate)}.\n"
+                            )
                     else:
                         unmatched_candidates.append(matched_candidate)
                         unmatched_objects.append(matched_object)
-- 
2.43.0


From 1e256262ea570700d4da416dd3d4921a971d41c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:11 +0000
Subject: [PATCH 23/46] fix: abbreviate the description of the progress bar in
 tiny terminals

---
 norfair/video.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/norfair/video.py b/norfair/video.py
index 29828d4..eba2846 100644
--- a/norfair/video.py
+++ b/norfair/video.py
@@ -292,9 +292,12 @@ class Video:
         if len(description) < space_for_description:
             return description
         else:
+            # in tiny terminals there is no space for any of the ends
+            beginning = max(space_for_description // 2 - 3, 0)
+            end = max(-(-space_for_description // 2) - 3, 0)
             return "{} ... {}".format(
-                description[: space_for_description // 2 - 3],
-                description[-space_for_description // 2 + 3 :],
+                description[:beginning],
+                description[max(len(description) - end, 0) :],
             )
 
 
-- 
2.43.0


From 3f878c1a017716069c6977465afef7815f5a4468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:55 +0000
Subject: [PATCH 24/46] fix: name the predictions file after the sequence when
 its path ends in a slash

---
 norfair/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/metrics.py b/norfair/metrics.py
index b9c1494..e164da6 100644
--- a/norfair/metrics.py
+++ b/norfair/metrics.py
@@ -46,7 +46,7 @@ class PredictionsTextFile:
 
     def __init__(self, input_path, save_path=".", information_file=None):
 
-        file_name = os.path.split(input_path)[1]
+        file_name = os.path.basename(os.path.normpath(input_path))
 
         if information_file is None:
             seqinfo_path = os.path.join(input_path, "seqinfo.ini")
-- 
2.43.0


From 4e09e51c2269199e905e7c7a6d45a2d35d9d3d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:39 +0000
Subject: [PATCH 25/46] fix: evaluate every sequence, also when their folders
 have the same name

---
 norfair/metrics.py | 34 ++++++++++++----------------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/norfair/metrics.py b/norfair/metrics.py
index e164da6..94732d8 100644
--- a/norfair/metrics.py
+++ b/norfair/metrics.py
@@ -14,7 +14,6 @@ except ImportError:
 
     mm = DummyMOTMetricsImport()
     pd = DummyMOTMetricsImport()
-from collections import OrderedDict
 
 
 class InformationFile:
@@ -174,7 +173,7 @@ class Accumulators:
         # the whole dataset before failing out if we don't.
         mm.metrics
 
-        file_name = os.path.split(input_path)[1]
+        file_name = os.path.basename(os.path.normpath(input_path))
 
         self.frame_number = 1
         # Save the path of this video in a list
@@ -314,28 +313,19 @@ def compare_dataframes(gts, ts):
 
 
 def eval_motChallenge(matrixes_predictions, paths, metrics=None, generate_overall=True):
-    gt = OrderedDict(
-        [
-            (
-                os.path.split(p)[1],
-                mm.io.loadtxt(
-                    os.path.join(p, "gt/gt.txt"), fmt="mot15-2D", min_confidence=1
-                ),
-            )
-            for p in paths
-        ]
-    )
-
-    ts = OrderedDict(
-        [
-            (os.path.split(paths[n])[1], load_motchallenge(matrixes_predictions[n]))
-            for n in range(len(paths))
-        ]
-    )
-
     mh = mm.metrics.create()
 
-    accs, names = compare_dataframes(gt, ts)
+    # one sequence at a time: two of them may be in folders that have the same name
+    accs, names = [], []
+    for n, p in enumerate(paths):
+        name = os.path.basename(os.path.normpath(p))
+        gt = mm.io.loadtxt(
+            os.path.join(p, "gt/gt.txt"), fmt="mot15-2D", min_confidence=1
+        )
+        ts = load_motchallenge(matrixes_predictions[n])
+        sequence_accs, sequence_names = compare_dataframes({name: gt}, {name: ts})
+        accs.extend(sequence_accs)
+        names.extend(sequence_names)
 
     if metrics is None:
         metrics = list(mm.metrics.motchallenge_metrics)
-- 
2.43.0


From eeabedb4668a214c27512a64e576b21954601664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:28 +0000
Subject: [PATCH 26/46] fix: keep the accumulated homography when the points of
 a frame do not define one

---
 norfair/camera_motion.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/norfair/camera_motion.py b/norfair/camera_motion.py
index cdf6a8b..0010e24 100644
--- a/norfair/camera_motion.py
+++ b/norfair/camera_motion.py
@@ -241,6 +241,16 @@ class HomographyTransformationGetter(TransformationGetter):
             confidence=self.confidence,
         )
 
+        if homography_matrix is None:
+            warning(
+                "The homography couldn't be computed in this frame "
+                "because its points don't define one"
+            )
+            if isinstance(self.data, np.ndarray):
+                return True, HomographyTransformation(self.data)
+            else:
+                return True, None
+
         proportion_points_used = np.sum(points_used) / len(points_used)
 
         update_prvs = proportion_points_used < self.proportion_points_used_threshold
-- 
2.43.0


From 2cbbd9dfe86bfbfd37a3b817d7b2d7a1e2dad331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:36 +0000
Subject: [PATCH 27/46] fix: vectorized distances accept instances of
 subclasses of Detection whatever their name

---
 norfair/distances.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/distances.py b/norfair/distances.py
index b08deee..c1c5d43 100644
--- a/norfair/distances.py
+++ b/norfair/distances.py
@@ -178,7 +178,7 @@ class VectorizedDistance(Distance):
             stacked_candidates = []
             for c, has_label in zip(candidates, cand_mask):
                 if has_label:
-                    if "Detection" in str(type(c)):
+                    if hasattr(c, "points"):
                         stacked_candidates.append(c.points.ravel())
                     else:
                         stacked_candidates.append(c.estimate.ravel())
-- 
2.43.0


From 768b57849ab15e040da859547095841d02214366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:37 +0000
Subject: [PATCH 28/46] fix: Accumulators.update accepts frames without
 predictions, as its signature says

---
 norfair/metrics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/norfair/metrics.py b/norfair/metrics.py
index 94732d8..62486e2 100644
--- a/norfair/metrics.py
+++ b/norfair/metrics.py
@@ -191,6 +191,8 @@ class Accumulators:
         )
 
     def update(self, predictions=None):
+        if predictions is None:
+            predictions = []
         # Get the tracked boxes from this frame in an array
         for obj in predictions:
             new_row = [
-- 
2.43.0


From c1754c40fcdadfd7ebe4933b7989a45a7bbda2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:15 +0000
Subject: [PATCH 29/46] fix: name the video of VideoFromFrames after the
 sequence when its path ends in a slash

---
 norfair/video.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/video.py b/norfair/video.py
index eba2846..4f5a547 100644
--- a/norfair/video.py
+++ b/norfair/video.py
@@ -311,7 +311,7 @@ class VideoFromFrames:
                 file_path=os.path.join(input_path, "seqinfo.ini")
             )
         if make_video:
-            file_name = os.path.split(input_path)[1]
+            file_name = os.path.basename(os.path.normpath(input_path))
 
             # Search framerate on seqinfo.ini
             fps = information_file.search(variable_name="frameRate")
-- 
2.43.0


From e6fb5c5053137e76fe785ca426a810ed724d5b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:15 +0000
Subject: [PATCH 30/46] fix: search the information file for variables of
 exactly the given name

---
 norfair/metrics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/norfair/metrics.py b/norfair/metrics.py
index 62486e2..32dbce3 100644
--- a/norfair/metrics.py
+++ b/norfair/metrics.py
@@ -25,7 +25,8 @@ class InformationFile:
 
     def search(self, variable_name):
         for line in self.lines:
-            if line[: len(variable_name)] == variable_name:
+            # the whole name, other variables may begin with it
+            if line.startswith(f"{variable_name}="):
                 result = line[len(variable_name) + 1 :]
                 break
         else:
-- 
2.43.0


From 223851ffa85aef5b6eb0fe9acf81aec8760c0834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:13 +0000
Subject: [PATCH 31/46] fix: compute IoU in floating point, integer types
 overflow

---
 norfair/distances.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/norfair/distances.py b/norfair/distances.py
index c1c5d43..77e1383 100644
--- a/norfair/distances.py
+++ b/norfair/distances.py
@@ -374,6 +374,9 @@ def iou(candidates: np.ndarray, objects: np.ndarray) -> np.ndarray:
     """
     _validate_bboxes(candidates)
 
+    # areas and differences overflow in the small or unsigned integer types
+    candidates, objects = candidates.astype(float), objects.astype(float)
+
     area_candidates = _boxes_area(candidates.T)
     area_objects = _boxes_area(objects.T)
 
-- 
2.43.0


From f5253ad630373d6cc923aea6c4024fe70361b63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:15 +0000
Subject: [PATCH 32/46] fix: coordinates of ignored points may be NaN or
 infinite without spreading to the filter

---
 norfair/tracker.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index ccfd13b..9519987 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -434,6 +434,11 @@ class _TrackedObjectFactory:
         return self.count, _TrackedObjectFactory.global_count
 
 
+def _finite_points(points: np.ndarray, detected_mask: np.ndarray) -> np.ndarray:
+    """Replace NaN and infinite coordinates of points that weren't detected, filters would spread them"""
+    return np.where(detected_mask[:, np.newaxis] | np.isfinite(points), points, 0)
+
+
 class TrackedObject:
     """
     The objects returned by the tracker's `update` function on each iteration.
@@ -531,7 +536,11 @@ class TrackedObject:
             self.past_detections: Sequence["Detection"] = []
 
         # Create Kalman Filter
-        self.filter = filter_factory.create_filter(initial_detection.absolute_points)
+        self.filter = filter_factory.create_filter(
+            _finite_points(
+                initial_detection.absolute_points, self.detected_at_least_once_points
+            )
+        )
         self.dim_z = self.dim_points * self.num_points
         self.label = initial_detection.label
         self.abs_to_rel = None
@@ -665,9 +674,10 @@ class TrackedObject:
         ] = 1
         H_vel = np.zeros(H_pos.shape)  # But we don't directly measure velocity
         H = np.hstack([H_pos, H_vel])
-        self.filter.update(
-            np.expand_dims(detection.absolute_points.flatten(), 0).T, None, H
+        measured_points = _finite_points(
+            detection.absolute_points, points_over_threshold_mask
         )
+        self.filter.update(np.expand_dims(measured_points.flatten(), 0).T, None, H)
 
         detected_at_least_once_mask = np.array(
             [(m,) * self.dim_points for m in self.detected_at_least_once_points]
-- 
2.43.0


From bd8055ac366f953bcd3b06f5d7d54b3141301301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:02 +0000
Subject: [PATCH 33/46] fix: Tracker.update refuses anything that is no
 Detection with ValueError, before touching its state

---
 norfair/tracker.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index 9519987..d7c1d57 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -176,9 +176,15 @@ class Tracker:
         List[TrackedObject]
             The list of active tracked objects.
         """
-        if coord_transformations is not None and detections is not None:
+        if detections is not None:
             for det in detections:
-                det.update_coordinate_transformation(coord_transformations)
+                if not isinstance(det, Detection):
+                    raise ValueError(
+                        f"\n[red]ERROR[/red]: The detection list fed into `tracker.update()` should be composed of {Detection} objects not {type(det)}.\n"
+                    )
+            if coord_transformations is not None:
+                for det in detections:
+                    det.update_coordinate_transformation(coord_transformations)
 
         # Remove stale trackers and make candidate object real if the hit counter is positive
         alive_objects = []
-- 
2.43.0


From 7501a4ac1dbb06447f6237e7aacdc650fa5f6e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:28 +0000
Subject: [PATCH 34/46] fix: AbsolutePaths.draw works without a coordinate
 transformation, its default

---
 norfair/drawing/path.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/norfair/drawing/path.py b/norfair/drawing/path.py
index 8029441..f392d14 100644
--- a/norfair/drawing/path.py
+++ b/norfair/drawing/path.py
@@ -3,6 +3,7 @@ from typing import Callable, Optional, Sequence, Tuple
 
 import numpy as np
 
+from norfair.camera_motion import TranslationTransformation
 from norfair.drawing.color import Palette
 from norfair.drawing.drawer import Drawer
 from norfair.tracker import TrackedObject
@@ -185,6 +186,10 @@ class AbsolutePaths:
         self.alphas = np.linspace(0.99, 0.01, max_history)
 
     def draw(self, frame, tracked_objects, coord_transform=None):
+        if coord_transform is None:
+            # without camera motion both coordinates are the same
+            coord_transform = TranslationTransformation(np.zeros(2))
+
         frame_scale = frame.shape[0] / 100
 
         if self.radius is None:
@@ -200,7 +205,9 @@ class AbsolutePaths:
             else:
                 color = self.color
 
-            points_to_draw = self.get_points_to_draw(obj.get_estimate(absolute=True))
+            points_to_draw = self.get_points_to_draw(
+                obj.get_estimate(absolute=obj.abs_to_rel is not None)
+            )
 
             for point in coord_transform.abs_to_rel(points_to_draw):
                 Drawer.circle(
-- 
2.43.0


From 41b5ded4270fc95f15f4200c4b41ca9340b6bc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:49 +0000
Subject: [PATCH 35/46] fix: keep distances in double precision, rounding to
 single moved them across the threshold

A pair at a distance equal to the threshold (0.7, for one) was matched, and
pairs whose distances differ by little were taken in any order.
---
 norfair/distances.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/norfair/distances.py b/norfair/distances.py
index 77e1383..45c1b60 100644
--- a/norfair/distances.py
+++ b/norfair/distances.py
@@ -87,7 +87,6 @@ class ScalarDistance(Distance):
         distance_matrix = np.full(
             (len(candidates), len(objects)),
             fill_value=np.inf,
-            dtype=np.float32,
         )
         if not objects or not candidates:
             return distance_matrix
@@ -146,7 +145,6 @@ class VectorizedDistance(Distance):
         distance_matrix = np.full(
             (len(candidates), len(objects)),
             fill_value=np.inf,
-            dtype=np.float32,
         )
         if not objects or not candidates:
             return distance_matrix
-- 
2.43.0


From 48bc421f6163b9b6abc97b38f10524d41ec26545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:43 +0000
Subject: [PATCH 36/46] fix: an object's past detections are spread by its own
 ages, not by those other objects set on shared detections

A detection given to several trackers, or to one tracker in several frames,
has a single age attribute, the last object that kept it sets it.
---
 norfair/tracker.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index d7c1d57..90c3f84 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -540,6 +540,8 @@ class TrackedObject:
             self.past_detections: Sequence["Detection"] = [initial_detection]
         else:
             self.past_detections: Sequence["Detection"] = []
+        # Other objects may keep the same detections, and set their ages
+        self._past_detections_ages = [self.age for _ in self.past_detections]
 
         # Create Kalman Filter
         self.filter = filter_factory.create_filter(
@@ -733,10 +735,13 @@ class TrackedObject:
         if len(self.past_detections) < self.past_detections_length:
             detection.age = self.age
             self.past_detections.append(detection)
-        elif self.age >= self.past_detections[0].age * self.past_detections_length:
+            self._past_detections_ages.append(self.age)
+        elif self.age >= self._past_detections_ages[0] * self.past_detections_length:
             self.past_detections.pop(0)
+            self._past_detections_ages.pop(0)
             detection.age = self.age
             self.past_detections.append(detection)
+            self._past_detections_ages.append(self.age)
 
     def merge(self, tracked_object):
         """Merge with a not yet initialized TrackedObject instance"""
-- 
2.43.0


From 1737f7c220a157a265743f3cfe4e059991ba76c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:27 +0000
Subject: [PATCH 37/46] fix: a tracker without camera motion takes the
 coordinates of a detection, not those a tracker with camera motion gave it

---
 norfair/tracker.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index 90c3f84..8243c95 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -185,6 +185,10 @@ class Tracker:
             if coord_transformations is not None:
                 for det in detections:
                     det.update_coordinate_transformation(coord_transformations)
+            else:
+                # a tracker with camera motion may have transformed them before
+                for det in detections:
+                    det.absolute_points = det.points.copy()
 
         # Remove stale trackers and make candidate object real if the hit counter is positive
         alive_objects = []
-- 
2.43.0


From 8754429ef27324289708206616a9b6449eceb39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:23 +0000
Subject: [PATCH 38/46] fix: tracks of the xyah and ByteTrack demos can be
 drawn (--make-video)

---
 demos/motmetrics4norfair/src/motmetrics4bytetrack.py    | 5 ++---
 demos/motmetrics4norfair/src/motmetrics4norfair_xyah.py | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/demos/motmetrics4norfair/src/motmetrics4bytetrack.py b/demos/motmetrics4norfair/src/motmetrics4bytetrack.py
index 655c215..5f54060 100644
--- a/demos/motmetrics4norfair/src/motmetrics4bytetrack.py
+++ b/demos/motmetrics4norfair/src/motmetrics4bytetrack.py
@@ -70,11 +70,10 @@ else:
 accumulator = metrics.Accumulators()
 
 
-class PartialStaticTracker:
+class PartialStaticTracker(drawing.Drawable):
     def __init__(self, estimate, obj_id, live_points):
+        super().__init__(points=estimate, id=obj_id, live_points=live_points)
         self.estimate = estimate
-        self.id = obj_id
-        self.live_points = live_points
 
 
 for input_path in sequences_paths:
diff --git a/demos/motmetrics4norfair/src/motmetrics4norfair_xyah.py b/demos/motmetrics4norfair/src/motmetrics4norfair_xyah.py
index 967ef8c..96f992f 100644
--- a/demos/motmetrics4norfair/src/motmetrics4norfair_xyah.py
+++ b/demos/motmetrics4norfair/src/motmetrics4norfair_xyah.py
@@ -77,11 +77,10 @@ else:
 accumulator = metrics.Accumulators()
 
 
-class CartesianTrack:
+class CartesianTrack(drawing.Drawable):
     def __init__(self, estimate, obj_id, live_points):
+        super().__init__(points=estimate, id=obj_id, live_points=live_points)
         self.estimate = estimate
-        self.id = obj_id
-        self.live_points = live_points
 
 
 # distance function for ByteTrack format
-- 
2.43.0


From 6caa5f0accf34f48a45ab413f723acfbf160ef76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:23 +0000
Subject: [PATCH 39/46] fix: OpenPose demo writes frames without people

---
 demos/openpose/src/demo.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/demos/openpose/src/demo.py b/demos/openpose/src/demo.py
index 995227a..10f41c5 100644
--- a/demos/openpose/src/demo.py
+++ b/demos/openpose/src/demo.py
@@ -103,13 +103,9 @@ if __name__ == "__main__":
                 detector(op.VectorDatum([datum]))
                 detected_poses = datum.poseKeypoints
 
-                if detected_poses is None:
-                    tracked_objects = tracker.update(period=args.skip_frame)
-                    continue
-
                 detections = (
                     []
-                    if not detected_poses.any()
+                    if detected_poses is None or not detected_poses.any()
                     else [
                         Detection(p, scores=s)
                         for (p, s) in zip(
-- 
2.43.0


From a7c935be791794f96eddf894f47d4f34d3244c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:23 +0000
Subject: [PATCH 40/46] fix: YOLO-NAS demo can track centroids

---
 demos/yolo_nas/src/demo.py | 57 ++++++++++++++------------------------
 1 file changed, 21 insertions(+), 36 deletions(-)

diff --git a/demos/yolo_nas/src/demo.py b/demos/yolo_nas/src/demo.py
index df2ccd7..b23d888 100644
--- a/demos/yolo_nas/src/demo.py
+++ b/demos/yolo_nas/src/demo.py
@@ -50,44 +50,29 @@ def yolo_detections_to_norfair_detections(
     """convert detections_as_xywh to norfair detections"""
     norfair_detections: List[Detection] = []
 
-    if track_points == "centroid":
-        detections_as_xywh = yolo_detections.xywh[0]
-        for detection_as_xywh in detections_as_xywh:
-            centroid = np.array(
-                [detection_as_xywh[0].item(), detection_as_xywh[1].item()]
-            )
-            scores = np.array([detection_as_xywh[4].item()])
-            norfair_detections.append(
-                Detection(
-                    points=centroid,
-                    scores=scores,
-                    label=int(detection_as_xywh[-1].item()),
-                )
-            )
-
-    elif track_points == "bbox":
-
-        # yolo_nas detections
-        detections_as_xyxy = yolo_detections[0]
-        class_names = detections_as_xyxy.class_names
-        labels = detections_as_xyxy.prediction.labels
-        confidence = detections_as_xyxy.prediction.confidence
-        bboxes = detections_as_xyxy.prediction.bboxes_xyxy
-
-        for i, (label, conf, bbox_yolo) in enumerate(zip(labels, confidence, bboxes)):
-            bbox = np.array(
-                [
-                    [bbox_yolo[0], bbox_yolo[1]],
-                    [bbox_yolo[2], bbox_yolo[3]],
-                ]
-            )
+    # yolo_nas detections
+    detections_as_xyxy = yolo_detections[0]
+    class_names = detections_as_xyxy.class_names
+    labels = detections_as_xyxy.prediction.labels
+    confidence = detections_as_xyxy.prediction.confidence
+    bboxes = detections_as_xyxy.prediction.bboxes_xyxy
+
+    for label, conf, bbox_yolo in zip(labels, confidence, bboxes):
+        points = np.array(
+            [
+                [bbox_yolo[0], bbox_yolo[1]],
+                [bbox_yolo[2], bbox_yolo[3]],
+            ]
+        )
+        if track_points == "centroid":
+            points = points.mean(axis=0, keepdims=True)
 
-            scores = np.array([conf, conf])
-            norfair_detections.append(
-                Detection(points=bbox, scores=scores, label=class_names[int(label)])
-            )
+        scores = np.full(len(points), conf)
+        norfair_detections.append(
+            Detection(points=points, scores=scores, label=class_names[int(label)])
+        )
 
-        return norfair_detections
+    return norfair_detections
 
 
 parser = argparse.ArgumentParser(description="Track objects in a video.")
-- 
2.43.0


From a0911b062b7c6cf0a853dfae82b2b4e7119cf23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:57 +0000
Subject: [PATCH 41/46] fix: mask detections partly out of the frame when
 estimating camera motion

---
 demos/camera_motion/src/demo.py                    | 4 ++--
 demos/motmetrics4norfair/src/motmetrics4norfair.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/demos/camera_motion/src/demo.py b/demos/camera_motion/src/demo.py
index 42673dd..c9613fc 100644
--- a/demos/camera_motion/src/demo.py
+++ b/demos/camera_motion/src/demo.py
@@ -255,11 +255,11 @@ def run():
                 mask = np.ones(frame.shape[:2], frame.dtype)
                 # set to 0 all detections
                 for b in boxes:
-                    i = b.astype(int)
+                    i = b.clip(min=0).astype(int)
                     mask[i[0, 1] : i[1, 1], i[0, 0] : i[1, 0]] = 0
                 if args.track_boxes:
                     for obj in tracked_objects:
-                        i = obj.estimate.astype(int)
+                        i = obj.estimate.clip(min=0).astype(int)
                         mask[i[0, 1] : i[1, 1], i[0, 0] : i[1, 0]] = 0
 
             if motion_estimator is None:
diff --git a/demos/motmetrics4norfair/src/motmetrics4norfair.py b/demos/motmetrics4norfair/src/motmetrics4norfair.py
index 8404e5f..7b6865b 100644
--- a/demos/motmetrics4norfair/src/motmetrics4norfair.py
+++ b/demos/motmetrics4norfair/src/motmetrics4norfair.py
@@ -18,10 +18,10 @@ def build_mask(frame, detections, tracked_objects):
     mask = np.ones(frame.shape[:2], frame.dtype)
     # set to 0 on detections and tracked_objects
     for det in detections:
-        i = det.points.astype(int)
+        i = det.points.clip(min=0).astype(int)
         mask[i[0, 1] : i[1, 1], i[0, 0] : i[1, 0]] = 0
     for obj in tracked_objects:
-        i = obj.estimate.astype(int)
+        i = obj.estimate.clip(min=0).astype(int)
         mask[i[0, 1] : i[1, 1], i[0, 0] : i[1, 0]] = 0
     return mask
 
-- 
2.43.0


From c494ea46f1c49d27d49ffdb9f9ee20329518880c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:12 +0000
Subject: [PATCH 42/46] fix: camera motion demo ignored --iou-threshold,
 --image-size and --output-name

---
 demos/camera_motion/src/demo.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/demos/camera_motion/src/demo.py b/demos/camera_motion/src/demo.py
index c9613fc..6ccb530 100644
--- a/demos/camera_motion/src/demo.py
+++ b/demos/camera_motion/src/demo.py
@@ -185,8 +185,7 @@ def run():
 
     model = torch.hub.load("ultralytics/yolov5", args.model)
     model.conf_threshold = 0
-    model.iou_threshold = args.iou_threshold
-    model.image_size = args.image_size
+    model.iou = args.iou_threshold
     model.classes = args.classes
 
     use_fixed_camera = args.fixed_camera_scale > 0
@@ -217,7 +216,7 @@ def run():
         if args.draw_paths:
             path_drawer = AbsolutePaths(max_history=args.path_history, thickness=2)
 
-        video = Video(input_path=input_path)
+        video = Video(input_path=input_path, output_path=args.output_name or ".")
         show_or_write = (
             video.write
             if args.save
@@ -244,7 +243,7 @@ def run():
             hit_counter_max=args.hit_counter_max,
         )
         for frame in video:
-            detections = model(frame)
+            detections = model(frame, size=args.image_size)
             detections, boxes = yolo_detections_to_norfair_detections(
                 detections, args.track_boxes
             )
-- 
2.43.0


From a51533207d68aed69eac88559cd3e2bcda346cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:04 +0000
Subject: [PATCH 43/46] fix: YOLO-NAS demo ignored --classes and --device

---
 demos/yolo_nas/src/demo.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/demos/yolo_nas/src/demo.py b/demos/yolo_nas/src/demo.py
index b23d888..47e33c5 100644
--- a/demos/yolo_nas/src/demo.py
+++ b/demos/yolo_nas/src/demo.py
@@ -23,10 +23,9 @@ class YOLO_NAS:
             device = "cuda:0" if torch.cuda.is_available() else "cpu"
 
         # load model
-        else:
-            self.model = super_gradients.training.models.get(
-                "yolo_nas_l", pretrained_weights="coco"
-            ).cuda()
+        self.model = super_gradients.training.models.get(
+            "yolo_nas_l", pretrained_weights="coco"
+        ).to(device)
 
     def __call__(
         self,
@@ -34,18 +33,16 @@ class YOLO_NAS:
         conf_threshold: float = 0.35,
         iou_threshold: float = 0.45,
         image_size: int = 720,
-        classes: Optional[List[int]] = None,
     ) -> torch.tensor:
 
-        if classes is not None:
-            self.model.classes = classes
-
         detections = self.model.predict(img, iou_threshold, conf_threshold)
         return detections
 
 
 def yolo_detections_to_norfair_detections(
-    yolo_detections: torch.tensor, track_points: str = "centroid"  # bbox or centroid
+    yolo_detections: torch.tensor,
+    track_points: str = "centroid",  # bbox or centroid
+    classes: Optional[List[int]] = None,  # all of them by default
 ) -> List[Detection]:
     """convert detections_as_xywh to norfair detections"""
     norfair_detections: List[Detection] = []
@@ -58,6 +55,8 @@ def yolo_detections_to_norfair_detections(
     bboxes = detections_as_xyxy.prediction.bboxes_xyxy
 
     for label, conf, bbox_yolo in zip(labels, confidence, bboxes):
+        if classes is not None and int(label) not in classes:
+            continue
         points = np.array(
             [
                 [bbox_yolo[0], bbox_yolo[1]],
@@ -134,7 +133,7 @@ for input_path in args.files:
         )
 
         detections = yolo_detections_to_norfair_detections(
-            yolo_detections, track_points=args.track_points
+            yolo_detections, track_points=args.track_points, classes=args.classes
         )
         tracked_objects = tracker.update(detections=detections)
         if args.track_points == "centroid":
-- 
2.43.0


From 9461959f4b87b4554fc4f6c9057043a72c1854b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:14 +0000
Subject: [PATCH 44/46] fix: colab demo ignored --img-size and --device

---
 demos/colab/demo.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/demos/colab/demo.py b/demos/colab/demo.py
index 8f23e8d..53f19ad 100644
--- a/demos/colab/demo.py
+++ b/demos/colab/demo.py
@@ -1,5 +1,5 @@
 import argparse
-from typing import List
+from typing import List, Optional
 
 import numpy as np
 from draw import center, draw
@@ -13,12 +13,18 @@ DISTANCE_THRESHOLD_CENTROID: float = 0.08
 
 
 def inference(
-    input_video: str, model: str, track_points: str, model_threshold: str, classes: List
+    input_video: str,
+    model: str,
+    track_points: str,
+    model_threshold: str,
+    classes: List,
+    image_size: int = 720,
+    device: Optional[str] = None,
 ):
     coord_transformations = None
     paths_drawer = None
     fix_paths = True
-    model = YOLO(model)
+    model = YOLO(model, device=device)
     video = Video(input_path=input_video)
 
     transformations_getter = HomographyTransformationGetter()
@@ -47,7 +53,7 @@ def inference(
             frame,
             conf_threshold=model_threshold,
             iou_threshold=0.45,
-            image_size=720,
+            image_size=image_size,
             classes=classes,
         )
 
@@ -113,4 +119,6 @@ if __name__ == "__main__":
         args.track_points,
         args.conf_threshold,
         args.classes,
+        args.img_size,
+        args.device,
     )
-- 
2.43.0


From b7ea95356f33f7715f38f7338383953eda7b55a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:07 +0000
Subject: [PATCH 45/46] fix: AlphaPose demo did not update the tracker in
 frames without people

---
 demos/alphapose/writer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/demos/alphapose/writer.py b/demos/alphapose/writer.py
index 1452596..804a10a 100644
--- a/demos/alphapose/writer.py
+++ b/demos/alphapose/writer.py
@@ -164,8 +164,12 @@ class DataWriter:
             orig_img = np.array(orig_img, dtype=np.uint8)[:, :, ::-1]
             if boxes is None or len(boxes) == 0:
                 if self.opt.save_img or self.save_video or self.opt.vis:
+                    # nobody was detected, the tracked objects get older
+                    img = orig_img.copy()
+                    tracked_objects = self.tracker.update()
+                    norfair.draw_tracked_objects(img, tracked_objects)
                     self.write_image(
-                        orig_img, im_name, stream=stream if self.save_video else None
+                        img, im_name, stream=stream if self.save_video else None
                     )
             else:
                 # location prediction (n, kp, 2) | score prediction (n, kp, 1)
-- 
2.43.0


From ba6cfe32e7bea6a63850fab464aaeb906ffe3991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:33 +0000
Subject: [PATCH 46/46] fix: --device of the YOLOv7 and colab demos had no
 effect

---
 demos/colab/yolo.py      | 4 +++-
 demos/yolov7/src/demo.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/demos/colab/yolo.py b/demos/colab/yolo.py
index 141aa07..accfb59 100644
--- a/demos/colab/yolo.py
+++ b/demos/colab/yolo.py
@@ -24,7 +24,9 @@ class YOLO:
 
         # load model
         try:
-            self.model = torch.hub.load("WongKinYiu/yolov7", "custom", model_path)
+            self.model = torch.hub.load("WongKinYiu/yolov7", "custom", model_path).to(
+                device
+            )
         except:
             raise Exception("Failed to load model from {}".format(model_path))
 
diff --git a/demos/yolov7/src/demo.py b/demos/yolov7/src/demo.py
index 4404e22..141651c 100644
--- a/demos/yolov7/src/demo.py
+++ b/demos/yolov7/src/demo.py
@@ -31,7 +31,9 @@ class YOLO:
 
         # load model
         try:
-            self.model = torch.hub.load("WongKinYiu/yolov7", "custom", model_path)
+            self.model = torch.hub.load("WongKinYiu/yolov7", "custom", model_path).to(
+                device
+            )
         except:
             raise Exception("Failed to load model from {}".format(model_path))
 
-- 
2.43.0

