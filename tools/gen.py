"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T, D, F, CM, U, V, M = ("norfair/tracker.py", "norfair/distances.py", "norfair/filter.py", "norfair/camera_motion.py",
                        "norfair/utils.py", "norfair/video.py", "norfair/metrics.py")
DR = "norfair/drawing/"
P = []


def p(pid, title, statement, over, text, tests, files, mech, level_note, observe=()):
    assert len(title) <= 80, (pid, len(title))
    P.append({
        "id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": tests,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": list(observe), "hook_needed": None},
        "_note": level_note})


TRK = "The tracker tests run a handful of fixed detection sequences; "

p("C01", "Association is closest pair first, one-to-one and below the threshold",
  "In every update detections are matched to existing objects greedily, closest eligible pair first: pairs at a distance strictly below the distance threshold only, each detection and each object in at most one pair, and no pair is left out unless one of its two members is in a pair at least as close. "
  "Objects that already finished initializing choose among all detections first; objects still initializing only get what those left over. "
  "This holds for any distance values, including infinities, ties, values equal to the threshold and thresholds of any size, and every update terminates.",
  ["inputs", "histories"], "All distance matrices (ties, infinities, values at the threshold), thresholds, numbers of detections and objects, over several frames; callable and predefined distances.",
  TRK + "no test looks at ties, boundary values or which of several eligible pairs is preferred.",
  [T], [("greedy matching loop", T + ":Tracker.match_dets_and_objs"), ("two rounds, initialized objects first", T + ":Tracker.update"), ("applying the matches", T + ":Tracker._update_objects_in_place")],
  "Validity predicate over every update of generated distance tables and geometric scenes; assumes a deterministic distance function.", ["Tracker.update", "TrackedObject.last_detection", "TrackedObject.last_distance"])
p("C02", "Every detection is accounted for: matched once or seeding one new object",
  "After every update each detection that was passed is the last detection of exactly one object known to the tracker: an existing one it was matched with or a new one. "
  "A new object carries the coordinates, the label and the fresh state (age, counters, points seen) of the one unmatched detection that created it, and no object appears without one. "
  "Updates without detections (no argument, None or an empty list) are the same as each other and create nothing.",
  ["inputs", "histories", "configurations"], "All trackers (distance, filter, delays, counters, periods, ReID or not) and frame sequences.",
  TRK + "nothing checks conservation of detections.", [T],
  [("creation of new objects from unmatched detections", T + ":Tracker.update"), ("matched / unmatched bookkeeping", T + ":Tracker._update_objects_in_place"), ("state of a new object", T + ":TrackedObject.__init__")],
  "Invariant over the history on generated trackers and frames.", ["Tracker.tracked_objects"])
p("C03", "Objects initialize, survive misses and disappear exactly as the counters say",
  "An object is returned by an update exactly when it is initialized (its hit counter exceeded initialization_delay once; immediately for a delay of 0) and its hit counter is not negative; the counter starts at period, every update takes 1, and a match then adds 2*period up to hit_counter_max. "
  "Without ReID an object whose counter became negative is gone for good; age counts the updates since creation, and initialization_delay defaults to half of hit_counter_max. "
  "get_active_objects and current_object_count report the same set as the last update returned.",
  ["histories", "configurations"], "All match / miss / period histories and all combinations of initialization_delay and hit_counter_max (period at most hit_counter_max).",
  TRK + "they cover a few constant presence patterns with period 1.", [T],
  [("per update decrement and aging", T + ":TrackedObject.tracker_step"), ("hit", T + ":TrackedObject.hit"), ("filtering and returned list", T + ":Tracker.update, Tracker.get_active_objects")],
  "Integer reference model of every object; without ReID (C08 covers it).", ["Tracker.update", "Tracker.get_active_objects", "Tracker.current_object_count", "TrackedObject.age", "TrackedObject.hit_counter"])
p("C04", "Ids are given once, in order, never reused; global ids never clash",
  "An object has no id and no global id while it is initializing; it gets both when it finishes and keeps them. "
  "Ids in one tracker count up from 1 in the order of initialization, without gaps (unless ReID is used) or reuse, total_object_count is the number of ids given, and initializing ids are unique and increasing in a tracker. "
  "Global ids are unique across all objects of all trackers of the process.",
  ["histories", "configurations"], "All interleavings of several trackers with arbitrary scripts.",
  TRK + "one test compares two trackers' counts after a few frames.", [T],
  [("id counters", T + ":_TrackedObjectFactory"), ("id acquisition at the end of initialization", T + ":TrackedObject._acquire_ids"), ("total", T + ":Tracker.total_object_count")],
  "Invariants over interleaved histories of up to three trackers.", ["TrackedObject.id", "TrackedObject.global_id", "TrackedObject.initializing_id", "Tracker.total_object_count"])
p("C05", "Labels isolate: tracking a mix equals tracking each label alone",
  "Detections and objects with different labels never match (no label only matches no label), whatever hashable type the labels have; labels are the same exactly when they compare equal. "
  "Tracking a stream of mixed labels gives, for each label, the same objects in the same states as tracking only the detections of that label. ",
  ["inputs", "histories"], "All streams of detections with labels of any hashable type, scalar, vectorized and scipy distances.",
  "A single test uses two string labels for a few frames; labels such as '1' / 1 / None / 'None' never meet.", [D, T],
  [("label masks in distances", D + ":ScalarDistance.get_distances, VectorizedDistance.get_distances")],
  "Metamorphic: mixed stream against one tracker per label.", ["Tracker.update"])
p("C06", "A point is live according to the scores of its own recent matches",
  "Each point of an object is live depending only on how often it was detected: a point is detected by a match when its score exceeds detection_threshold (or when the detection has no scores), and is then live right away. "
  "Every update takes 1 from a point's counter and every match that detects it adds 2*period, up to pointwise_hit_counter_max (or the period of creation, if larger), where a match brings counters that became negative back to 0, or to 1 if the point was detected. "
  "live_points are exactly the points with a positive counter, and in a new object exactly those detected by the detection that created it, with a counter of 1.",
  ["histories", "inputs"], "All sequences of score masks (including scores equal to the threshold, no scores), misses and periods.",
  "One test steps a pointwise counter for a single constant scenario.", [T],
  [("pointwise counters", T + ":TrackedObject.hit, TrackedObject.tracker_step"), ("live points", T + ":TrackedObject.live_points")],
  "Integer model of each point's counter; without ReID.", ["TrackedObject.live_points"])
p("C07", "Points whose score does not exceed the threshold leave no trace",
  "The coordinates a detection gives for a point whose score does not exceed detection_threshold, NaN and infinite ones included, never influence the estimate, velocity or liveness of any detected point, for each available filter. "
  "An ignored point that was seen before stays at its predicted position with unchanged velocity; a point detected for the first time after the object was created is placed exactly at its detected coordinates with zero velocity. ",
  ["inputs", "histories", "configurations"], "All garbage coordinates (finite, NaN, infinite), score masks and match / miss histories, all three filters.",
  TRK + "no test varies the coordinates of low score points.", [T, F],
  [("measurement masks and first detections of points", T + ":TrackedObject.hit"), ("masked filter update", F + ":OptimizedKalmanFilter.update, NoFilter.update")],
  "Metamorphic (garbage coordinates) plus a per-match model.", ["TrackedObject.estimate", "TrackedObject.estimate_velocity", "TrackedObject.live_points"])
p("C08", "ReID: lost objects wait, come back under their old id, or expire",
  "With a reid_distance_function, an initialized object whose hit counter runs out is hidden for up to reid_hit_counter_max updates and is revived by an object that was still initializing, was detected in the same update, has the same label and is under reid_distance_threshold, closest pair first and one-to-one; an object that is detected again before it was hidden is an ordinary object again. "
  "A revived object keeps its id, global id, age and past detections, and takes over position, filter, detection, liveness and a hit counter of twice the initial period from the newcomer, which is no longer tracked. "
  "A hidden object is never matched to a detection nor returned, and is gone for good when its time is over; without a reid_distance_function nothing is revived.",
  ["histories", "configurations"], "All histories of appearances, losses and reappearances with labels, thresholds and counters.",
  "One test revives one object once in a fixed schedule.", [T],
  [("ReID matching round", T + ":Tracker.update"), ("merging", T + ":TrackedObject.merge"), ("ReID countdown", T + ":TrackedObject.tracker_step, TrackedObject.hit")],
  "Reference model of hiding, candidates, merging and expiry; assumes hit_counter_max >= 2*period, constant period and no ties.", ["Tracker.update", "TrackedObject.id"])
p("C09", "Camera motion: relative tracking with transformations equals absolute tracking",
  "Tracking detections given in frame coordinates together with the coordinate transformations of every frame yields the same objects, ids, counters, absolute estimates and absolute velocities as tracking the same detections given in absolute coordinates. "
  "The estimate of an object in frame coordinates is its absolute estimate through the transformation of the last update, updates without detections included, and a detection fed to several trackers is transformed only once: its absolute points are its points through the inverse of its frame's transformation, or its points when there is none. "
  "Asking for absolute coordinates is a ValueError unless transformations were given.",
  ["inputs", "histories"], "All scenes, camera paths (translations and homographies), and presence patterns.",
  "One test uses a single translation for two frames.", [T, CM],
  [("conversion of detections", T + ":Detection.update_coordinate_transformation"), ("absolute distance computation and estimates", T + ":TrackedObject.get_estimate, TrackedObject.hit, TrackedObject.update_coordinate_transformation")],
  "Metamorphic: moving camera against fixed scene; near-ties between distances discarded.", ["TrackedObject.get_estimate", "TrackedObject.estimate", "TrackedObject.estimate_velocity"])
p("C10", "Past detections are bounded, in order and spread over the object's life",
  "An object keeps at most past_detections_length of its matched detections, oldest first: the first ones are all kept until there are that many, and none are kept for a length of 0. "
  "Once full, the oldest kept detection is dropped and the new one is kept exactly when the object's age is at least the age of the oldest kept one times the length; otherwise the new one is not kept. "
  "Each kept detection tells the age the object had when it was matched, and a detection given more than once, or to several trackers, changes nothing in this. When ReID merges a newer object into an older one, the older one takes over the detections the newer one kept in the same way, one by one and oldest first.",
  ["histories"], "All match / miss histories of hundreds of updates and all lengths.",
  "One test checks one length for a constant history.", [T],
  [("conditional recording", T + ":TrackedObject._conditionally_add_to_past_detections")],
  "Model of the buffer.", ["TrackedObject.past_detections", "Detection.age"])
p("C11", "Tracking does not depend on origin, axes, point or detection order",
  "Shifting the origin, mirroring or swapping axes, permuting the points inside every detection, permuting the detections of a frame, or adding objects beyond reach leaves the resulting tracks the same up to that change. "
  "Scaling all coordinates, the distance threshold and the filter's noise accordingly scales the tracks. ",
  ["inputs", "histories"], "All scenes without near-ties between distances and all such changes.",
  "Tests never run the same scene twice.", [T, F, D],
  [("matching", T + ":Tracker.match_dets_and_objs"), ("filters treat coordinates alike", F)],
  "Metamorphic over generated scenes.", ["Tracker.update"])
p("C12", "Trackers share nothing, are deterministic and leave their inputs alone",
  "What a tracker returns depends only on its own parameters and the detections given to it: other trackers in the process (with the same filter factory and distance, or given the very same detections, with another camera motion), or the caller overwriting the lists and arrays the tracker returned or the coordinate arrays passed in earlier, change nothing. "
  "update never modifies the detection list, nor the points and scores of the detections, and the memory layout, number type or writability of the arrays given makes no difference.",
  ["histories", "schedules"], "All interleavings of two histories and all points at which the caller overwrites buffers.",
  "Tests use trackers one after another and never mutate what they got.", [T, F],
  [("copies of state", T + ":TrackedObject.__init__, TrackedObject.estimate, Detection.__init__"), ("fresh filter per object", F + ":FilterFactory.create_filter")],
  "Differential: isolated against interleaved trackers, bit for bit.", ["Tracker.update", "TrackedObject.estimate"])
p("C13", "Invalid arguments are refused with ValueError, valid ones accepted",
  "A tracker is refused with ValueError exactly when its initialization_delay is negative or not below hit_counter_max, its past_detections_length is negative, or its distance is neither a callable nor a known name. "
  "Detections with points of more than two dimensions, things that are not detections (whether or not objects are tracked, near them or not, with or without camera motion), and distance or ReID distance functions that give NaN are refused with ValueError. "
  "A single flat point is the same as one row of points, and a tracker that refused something that is no detection goes on as if that update had not been asked for.",
  ["inputs", "configurations"], "All argument combinations around the limits, detection shapes, and distances that return NaN at any cell.",
  "Tests try a few invalid values each.", [T, U, D],
  [("constructor checks", T + ":Tracker.__init__"), ("NaN and shape checks", T + ":Tracker._update_objects_in_place, Tracker.match_dets_and_objs"), ("points", U + ":validate_points")],
  "Generated arguments against the stated acceptance rule.", ["Tracker", "Detection", "Tracker.update"])
p("C14", "The default filter is a textbook constant velocity Kalman filter per point",
  "With the default (optimized) filter each coordinate of each point follows, over any sequence of predictions and (masked) measurements, a constant velocity Kalman filter with the factory's R, Q and initial variances, starting at the first detection with zero velocity. "
  "Coordinates do not influence each other, and the estimate and velocity of a tracked object are the position and velocity of that filter after every update. ",
  ["inputs", "histories", "configurations"], "All parameters and all sequences of predictions, masks and measurements.",
  "One test compares two filters on a fixed short sequence.", [F, T],
  [("optimized update", F + ":OptimizedKalmanFilter.update, OptimizedKalmanFilter.predict"), ("factory", F + ":OptimizedKalmanFilterFactory.create_filter")],
  "Reference 2x2 filter per coordinate; the covariance is propagated once per match, as the optimized filter documents by construction.", ["OptimizedKalmanFilterFactory", "TrackedObject.estimate", "TrackedObject.estimate_velocity"])
p("C15", "The other filters follow their definitions",
  "FilterPyKalmanFilterFactory(R, Q, P) gives a constant velocity Kalman filter for every coordinate: measurement noise R, process noise 1 on positions and Q on velocities, initial variance 1 on positions and P on velocities, updated by the detected points only. "
  "NoFilterFactory gives objects whose estimate is the last detected coordinates of each point, with zero velocity. ",
  ["inputs", "histories", "configurations"], "All parameters and all prediction / masked measurement sequences.",
  "Tests only run the filters on one fixed sequence.", [F, T],
  [("factories", F + ":FilterPyKalmanFilterFactory.create_filter, NoFilterFactory.create_filter"), ("no filter", F + ":NoFilter.update")],
  "Reference filter per coordinate.", ["FilterPyKalmanFilterFactory", "NoFilterFactory", "TrackedObject.estimate"])
p("C16", "Pointwise distances follow their documented formulas",
  "frobenius is the Frobenius norm of the difference of the points of a detection and the estimate of an object, mean_euclidean and mean_manhattan the mean over points of the L2 and L1 distances, and the normalized mean euclidean distance the mean of the L2 distances after dividing the axes by width and height. "
  "The keypoints voting distance is 1 / (1 + the number of points closer than the keypoint threshold whose scores in the detection and in the object's last detection both exceed the detection threshold). "
  "Each takes any number of points.",
  ["inputs"], "All point sets of 1 or more points, any magnitudes, scores and thresholds (values equal to thresholds included).",
  "Tests evaluate a few hand-made pairs.", [D], [("formulas", D + ":frobenius, mean_euclidean, mean_manhattan, create_keypoints_voting_distance, create_normalized_mean_euclidean_distance")],
  "Differential against plain Python formulas.", ["norfair.distances"])
p("C17", "IoU distance is exactly 1 - intersection over union",
  "For any valid boxes the iou distance of each candidate and object is 1 minus the ratio of intersection and union: symmetric, in [0, 1], 0 for identical boxes, 1 for boxes that do not overlap, also for negative and large coordinates, in any integer or floating point type. "
  "The matrix has a row per candidate and a column per object, and arrays that do not have four columns are refused. ",
  ["inputs"], "All matrices of valid boxes (sharing edges, nested, disjoint, huge).", "Tests check a few hand-made pairs.", [D],
  [("iou", D + ":iou, _boxes_area, _validate_bboxes")], "Exact rational arithmetic oracle.", ["norfair.distances.iou", "get_distance_by_name('iou')"])
p("C18", "Distance matrices put the right pair's distance in every cell",
  "For every kind of distance (callable, vectorized, scipy metric with its arguments, by name) the matrix has one row per candidate (a Detection, or an instance of a subclass, or a tracked object) and one column per object; the cell of a pair is infinite when their labels differ and else the distance of that pair alone, arguments in the documented order, also when either side is empty. "
  "Every documented name gives its distance, and unknown names are refused with ValueError. ",
  ["inputs", "configurations"], "All mixes of labels, numbers of detections and objects, metrics.",
  "Tests use a couple of matrices with at most two labels.", [D],
  [("matrix construction", D + ":ScalarDistance.get_distances, VectorizedDistance.get_distances, ScipyDistance"), ("names", D + ":get_distance_by_name")],
  "Differential, cell by cell, against the pair alone.", ["get_distances", "get_distance_by_name"])
p("C19", "Coordinate transformations are exact inverses and follow their formula",
  "A translation transformation adds its vector going from absolute to relative coordinates and subtracts it going back; a homography transformation maps absolute to relative points by its matrix in homogeneous coordinates and back by the inverse. "
  "rel_to_abs and abs_to_rel undo each other, keep the number and order of points and leave their input alone, and a homography gives finite coordinates for points mapped to infinity. ",
  ["inputs"], "All vectors, all well conditioned matrices (any scale), all point arrays (empty, integer, float).",
  "Tests check two matrices on a few points.", [CM], [("transformations", CM + ":TranslationTransformation, HomographyTransformation")],
  "Exact rational arithmetic and round trips.", ["abs_to_rel", "rel_to_abs"])
p("C20", "The translation estimate is the most common flow, accumulated over references",
  "A translation getter returns a translation by the most frequent flow of the points (binned to bin_size) added to the translation accumulated at earlier reference frame changes. "
  "It asks for a new reference frame exactly when the share of points at that flow is below proportion_points_used_threshold, and transformations it returned before keep their meaning. ",
  ["inputs", "histories"], "All sequences of point sets and all parameters.", "One test makes one call.", [CM],
  [("mode of the flow", CM + ":TranslationTransformationGetter.__call__")], "Reference model with exact bins; flows off bin edges.", ["TranslationTransformationGetter.__call__"])
p("C21", "The homography estimate is recovered, accumulated and safe on few points",
  "A homography getter returns the transformation that maps the absolute points of the first reference frame to the current frame, composed over all reference frame changes, also with a minority of outliers. "
  "It asks for a new reference frame exactly when the share of inliers is below proportion_points_used_threshold, and for fewer than four points (or none, or points that define no homography) it asks for one and returns the last accumulated transformation, or None if there was none. "
  "Its method, reprojection threshold, iterations and confidence have the meaning they have in cv2.findHomography, with the documented defaults. ",
  ["inputs", "histories", "configurations"], "All sequences of point sets around near-identity homographies with up to 30% outliers; any noise and parameters against OpenCV.",
  "One test makes a call.", [CM], [("estimation and accumulation", CM + ":HomographyTransformationGetter.__call__")],
  "Known homographies by construction; cv2.findHomography trusted.", ["HomographyTransformationGetter.__call__"])
p("C22", "MotionEstimator follows the camera and survives featureless frames",
  "Fed with the frames of a camera moving over a static textured world, the motion estimator returns for every frame a transformation that takes frame coordinates to coordinates of the first frame and back, within a pixel or so, also when a masked-out region moves on its own. "
  "Frames are left untouched unless drawing the flow is asked for, which does not influence the estimate; frames without features, masked out wholly or blank, never make it raise (a translation estimate then starts over like a new one), and estimators do not influence each other.",
  ["inputs", "histories"], "Synthetic worlds, camera paths of up to 9 pixels per frame, masks and featureless frames.",
  "No test runs the motion estimator on a video.", [CM],
  [("estimation loop", CM + ":MotionEstimator.update"), ("flow", CM + ":_get_sparse_flow")], "Ground truth camera path by construction; cv2's optical flow trusted on high contrast textures.", ["MotionEstimator.update"])
p("C23", "Colors parse as documented and palettes give stable colors",
  "Hex colors of 3 or 6 digits in either case give the matching BGR tuple and anything malformed is refused with ValueError; every named color parses to its constant, and BGR tuples are kept. "
  "After any history of palette and default color changes, a palette gives every object the same color for the same key, always one of its colors, different ones for consecutive ids, and the default color for None. "
  "A palette that is refused with ValueError leaves the one in use untouched.",
  ["inputs", "histories"], "All strings, all names, all palette histories.", "Tests try a few hex values and palettes.", [DR + "color.py"],
  [("hex", DR + "color.py:hex_to_bgr"), ("parsing", DR + "color.py:parse_color"), ("palette", DR + "color.py:Palette")], "Differential and model over histories; PIL / matplotlib tables as reference for names.", ["hex_to_bgr", "parse_color", "Palette"])
p("C24", "draw_boxes and draw_points paint what and where their options say",
  "Drawing boxes or points paints exactly the rectangles around, respectively the live points of, the objects given (detections, tracked objects or drawables) in the color the options ask for, and nothing else: one color, by id, by label, or per object, with the requested thickness or radius, dead points hidden or not. "
  "Titles show label, id and scores as requested in the text color next to their object, and the deprecated functions and options draw the same as their replacements. "
  "Drawing returns the frame, never modifies the objects, and leaves the frame alone if there is nothing to draw.",
  ["inputs", "configurations"], "All lists of objects, options and frames.", "Tests compare a few drawings with stored colors.", [DR + "draw_boxes.py", DR + "draw_points.py", DR + "drawer.py", DR + "utils.py"],
  [("boxes", DR + "draw_boxes.py:draw_boxes"), ("points", DR + "draw_points.py:draw_points"), ("primitives", DR + "drawer.py:Drawer"), ("titles", DR + "utils.py:_build_text")], "Pixel comparison with direct OpenCV calls; titles compared with one drawn for the expected text.", ["draw_boxes", "draw_points", "draw_tracked_boxes", "draw_tracked_objects"])
p("C25", "Paths draw every object's trail, fading, in frame or absolute coordinates",
  "Paths paints for every object a dot at its points of interest in each frame, in the object's color and size, on top of what it painted before, faded by the attenuation each frame. "
  "AbsolutePaths joins the last max_history positions of every object present by lines that fade with age and stay fixed in the scene while the camera moves; without a transformation it draws in frame coordinates. "
  "Both leave other objects' trails alone and keep drawing when objects come and go.",
  ["inputs", "histories", "configurations"], "All histories of objects, camera movements and options.", "No test draws paths.", [DR + "path.py"],
  [("paths", DR + "path.py:Paths.draw"), ("absolute paths", DR + "path.py:AbsolutePaths.draw"), ("blending", DR + "drawer.py:Drawer.alpha_blend")], "Pixel model with plain OpenCV calls.", ["Paths.draw", "AbsolutePaths.draw"])
p("C26", "FixedCamera places every frame where the camera was",
  "FixedCamera gives a canvas scale times the size of the frames in which the current frame lies at the centre displaced by the camera movement, cropped to the canvas, unchanged and on top. "
  "Everywhere else the earlier content remains, faded by the attenuation once per frame, black where nothing was seen. ",
  ["inputs", "histories"], "All frame sizes, scales, attenuations and camera translations, also off the canvas.", "One test runs one camera path on a tiny frame.", [DR + "fixed_camera.py"],
  [("placement and cropping", DR + "fixed_camera.py:FixedCamera.adjust_frame")], "Pixel model.", ["FixedCamera.adjust_frame"])
p("C27", "The absolute grid is drawn at the projected points and moves with the camera",
  "The absolute grid paints crosses of the given color, radius and thickness at the projections of a grid of equally spaced latitudes and longitudes, seen from the equator or the pole, at the position they have in the current camera frame, and nothing elsewhere. "
  "It depends only on the arguments of the call, not on earlier calls. ",
  ["inputs", "histories", "configurations"], "All frame and grid sizes, options and transformations, several calls in a row.", "No test draws the grid.", [DR + "absolute_grid.py"],
  [("projection", DR + "absolute_grid.py:_get_grid"), ("drawing", DR + "absolute_grid.py:draw_absolute_grid")], "Recomputed grid points, compared to one pixel.", ["draw_absolute_grid"])
p("C28", "Video reads each frame once in order and writes all frames where it says",
  "Iterating a Video yields every frame of its input once, in order and unchanged; writing frames produces a video with exactly those frames, in order, of their size and the requested or input rate, in the requested file or under an automatic name next to the others in the output folder. "
  "Exactly one of camera and input path must be given, missing and unreadable inputs are refused, and the codec follows the output's extension unless it was given; unknown extensions are refused with an explanation. "
  "Showing a frame displays it resized by the downsample ratio.",
  ["inputs", "configurations"], "All clips (count, size, rate, container), outputs, codecs and downsample ratios.", "No test opens a video.", [V],
  [("reading and releasing", V + ":Video.__iter__"), ("writing", V + ":Video.write, Video.get_output_file_path, Video.get_codec_fourcc"), ("showing", V + ":Video.show")], "Round trip against OpenCV's own reader; lossy codecs compared with a margin.", ["Video"])
p("C29", "VideoFromFrames plays the images of a sequence in order, once, restartable",
  "Iterating a MOTChallenge folder yields the images of frames 1 to the sequence's length exactly once, in order and unchanged, whatever other files are in the folder; a new iteration starts from the beginning. "
  "Frames passed to update are written to a video named after the sequence, complete after the last frame, with the size and rate of the sequence's information. ",
  ["inputs", "histories"], "All sequence lengths, image formats, information files and partial iterations.", "No test uses it.", [V, M],
  [("iteration", V + ":VideoFromFrames.__iter__, VideoFromFrames.__next__"), ("writing", V + ":VideoFromFrames.update")], "Synthetic sequences compared image by image.", ["VideoFromFrames"])
p("C30", "MOTChallenge files are read and written without losing or moving a box",
  "For every frame of a sequence the detection parser gives exactly the boxes and confidences the file has for that frame (as corner points), whatever the order of its rows, each time it is iterated. "
  "The predictions file has exactly one row per tracked object and frame with its id and its box as left, top, width and height, in the file named after the sequence, complete after the last frame. "
  "Variables of the information file are found by their whole name wherever they stand, with numbers as integers, and a missing one is a ValueError.",
  ["inputs", "histories"], "All detection files, prediction sequences and information files.", "Tests run one metrics file of a few frames.", [M],
  [("detections", M + ":DetectionFileParser"), ("predictions", M + ":PredictionsTextFile"), ("information", M + ":InformationFile")], "Round trips through real files.", ["DetectionFileParser", "PredictionsTextFile", "InformationFile"])
p("C31", "Accumulated metrics count what the ground truth says",
  "Misses, false positives, identity switches, object counts, MOTA and MOTP computed for accumulated predictions are the ones that follow from the ground truth's considered boxes (those of non-zero confidence), frame by frame, for every sequence and overall, in the order the sequences were added. "
  "Sequences with no or a single prediction or ground truth row are evaluated like any other, and the saved file holds the same rows. ",
  ["inputs", "histories"], "All sequences of predictions derived from a ground truth by known errors.", "One test evaluates a single perfect tracker.", [M],
  [("accumulation", M + ":Accumulators"), ("loading and comparing", M + ":load_motchallenge, eval_motChallenge, compare_dataframes")], "Known by construction and differential against motmetrics fed directly; motmetrics trusted.", ["Accumulators"])
p("C32", "Cut-outs, the debugging table and detection points show what was given",
  "A cut-out is exactly the part of the image inside the bounding box of the points, cropped at the image's borders, without changing either. "
  "The table of objects has a row for each object, in order, with its id, age, hit counter, last distance and initializing id, also for objects that were never matched. "
  "A detection keeps its points (one row for a single point), data, label, scores and embedding as given.",
  ["inputs", "histories"], "All images and point sets (also outside of the image), all tracked objects in any phase.", "No test calls them.", [U, T],
  [("cut-out", U + ":get_cutout"), ("table", U + ":print_objects_as_table"), ("points", U + ":validate_points")], "Pixel by pixel crop, parsed table.", ["get_cutout", "print_objects_as_table", "Detection"])

p("C33", "Well separated objects each keep one identity from end to end",
  "Objects that stay far apart compared with how far they move between detections are each tracked as one object with one id for as long as the counters keep them, with any filter, named distance or function, number of points and dimensions, labels, periods, misses, order of detections and camera motion: no id switch, no extra object, no lost one. "
  "Their estimates stay near the true positions, and close to them, with the true velocity, once an object moving steadily was seen for long; with the Kalman filters they follow that motion through gaps without detections, and the object is found again where it went. ",
  ["histories", "configurations"], "All scenes of up to six separated bodies with gaps, noise, camera motion and all filters and distances.",
  TRK + "no test follows several objects through misses, noise and camera motion.", [T, F, D, CM],
  [("tracking loop", T + ":Tracker.update"), ("prediction", F + ":OptimizedKalmanFilter"), ("distances", D + ":get_distance_by_name")],
  "Reference: an ideal tracker that knows the body of every detection.", ["Tracker.update", "TrackedObject.get_estimate", "TrackedObject.estimate_velocity"])
p("C34", "Custom filters, distances and transformations are used by their contract",
  "A custom filter factory is asked for one filter per new object, with the absolute points of its detection; that filter's predict is called once for every update the object is kept, before any distance is asked for, and its update once per match with the absolute coordinates as a column and a measurement matrix that selects the detected coordinates. The object's estimate and velocity are the two halves of the filter's state. "
  "Custom coordinate transformations (any abs_to_rel and rel_to_abs) apply to every detection and object, a distance function is only asked about detections of the frame and objects alive, and a distance given by name or as the equivalent function tracks the same. ",
  ["inputs", "histories", "configurations"], "All histories with recording plug-ins, all named distances with an equivalent function.",
  "One test plugs in a filter factory and never looks at the calls it gets.", [T, F, D, CM],
  [("creating and feeding the filter", T + ":TrackedObject.__init__, TrackedObject.hit, TrackedObject.tracker_step"), ("choosing the distance", T + ":Tracker.__init__")],
  "Recorded calls of plug-ins checked against the contract; differential between forms of a distance.", ["FilterFactory.create_filter", "filter.predict", "filter.update", "distance_function"])
p("C35", "Without optional packages tracking is the same; the rest says what to install",
  "norfair imports, in any order of its modules, when OpenCV, motmetrics or pandas are missing, and everything that does not need the missing package gives the same results as with it: tracking, camera transformations, the translation getter, colors, FixedCamera, MOTChallenge files, tables and cut-outs. "
  "Everything that needs it raises ImportError naming the extra to install. ",
  ["configurations", "histories"], "All sets of missing packages, import orders, tracking histories and operations.",
  "Tests run with every package installed.", [V, U, M, CM, DR + "drawer.py"],
  [("stand-ins for missing packages", U + ":DummyOpenCVImport, DummyMOTMetricsImport"), ("guarded imports", V + ", " + M + ", " + CM + ", " + DR + "drawer.py")],
  "Differential against norfair with all packages, imported side by side in one process.", ["import norfair", "ImportError"])
p("C36", "Drawer primitives paint their shape in place; blending is the weighted sum",
  "Drawer's circles, lines, crosses and rectangles paint the pixels of their shape in the given color and width on the given frame and nothing else, wherever they lie, on the frame or partly outside. "
  "Text is painted at its position in its size, thickness and color, over a shadow of its own, offset, in the shadow's color (black, one pixel by default) if there is to be one. "
  "alpha_blend gives a new frame, the rounded and clipped alpha * frame1 + beta * frame2 + gamma, with beta 1 - alpha by default. ",
  ["inputs", "configurations"], "All frames, places, sizes, widths, colors, texts and weights.", "Tests compare a few drawings with stored pictures; no primitive is tested.", [DR + "drawer.py"],
  [("primitives", DR + "drawer.py:Drawer"), ("blending", DR + "drawer.py:Drawer.alpha_blend")], "Geometric oracle with a margin of a pixel or two; exact weighted sums.", ["Drawer"])
p("C37", "Progress bars say what is processed, how far and how fast, in any terminal",
  "While a Video is read its progress bar shows the name of the input file or the camera, the label if there is one, how many percent of the frames were read (for files) and the frames per second so far; a camera's frames are all given, once and in order, with its size and fps. "
  "A description shorter than the terminal's columns less 25 is shown as it is, a longer one is cut in the middle to its beginning, ' ... ' and its end within that width (in terminals too small for that, to ' ... '). "
  "The terminal is the first of standard input, output and error that is one, with a default size if none is. ",
  ["inputs", "configurations"], "All descriptions and terminal sizes; clips and cameras read to the end or left early.", "No test opens a video or looks at its progress.", [V, U],
  [("progress bar", V + ":Video.__init__, Video.__iter__"), ("abbreviation", V + ":Video.abbreviate_description"), ("terminal", U + ":get_terminal_size")],
  "Parsed output, stand-ins for terminals and cameras.", ["Video.__iter__", "Video.abbreviate_description", "get_terminal_size"])
p("C38", "From detection file to metrics, a sequence is reported as it was tracked",
  "Reading a MOTChallenge sequence's detections, tracking them, and passing what update returns to PredictionsTextFile and Accumulators reports exactly what the tracker did: for bodies that stay apart the boxes are theirs, the misses are the frames in which a body that is there is not (or no longer) tracked, the false positives those in which an object is still tracked although nothing is there, and an identity switch is counted exactly when a body comes back after its object was forgotten. "
  "The predictions file evaluated on its own (by eval_motChallenge or motmetrics) gives the same metrics as the accumulators, for every sequence and overall. ",
  ["inputs", "histories", "configurations"], "All sequences of bodies in lanes of their own, tracker counters, filters and distances.", "One test runs three short sequences and compares overall numbers only.", [M, T],
  [("reading", M + ":DetectionFileParser"), ("writing", M + ":PredictionsTextFile.update"), ("accumulating and evaluating", M + ":Accumulators, eval_motChallenge, load_motchallenge, compare_dataframes"), ("counters", T + ":Tracker.update")],
  "Model of the counters gives the boxes and events; differential between accumulators, predictions file and motmetrics.", ["Accumulators", "DetectionFileParser", "PredictionsTextFile", "eval_motChallenge"])
p("C39", "The MOTChallenge scripts evaluate, save and film exactly what is asked",
  "Running demos/motmetrics4norfair's scripts on a folder of MOTChallenge sequences evaluates exactly the selected sequences (in the order given; all folders by default), prints one row of metrics per sequence and an overall one, and writes predictions, metrics.txt and videos (a frame per image) under the output path exactly when --save-pred, --save-metrics and --make-video ask for them. "
  "For bodies that stay apart, with a still camera or (motmetrics4norfair.py) a moving one, the boxes saved are those of the bodies, coasting where the world is while they are missed, and misses, false positives, switches and MOTA are what the tracker's counters imply; the predictions saved give the metrics printed. "
  "The camera's motion is estimated outside of the boxes detected and tracked. The xyah script tracks center, aspect ratio and height with a distance that is 1 - IoU of the boxes meant and saves corners; the ByteTrack script gives that tracker every frame's boxes with their scores.",
  ["inputs", "histories", "configurations"], "All folders of sequences, camera paths, bodies in lanes and combinations of options.", "No test runs a script.",
  ["demos/motmetrics4norfair/src/motmetrics4norfair.py", "demos/motmetrics4norfair/src/motmetrics4norfair_xyah.py", "demos/motmetrics4norfair/src/motmetrics4bytetrack.py", M, V],
  [("evaluation with camera motion", "demos/motmetrics4norfair/src/motmetrics4norfair.py"), ("evaluation in xyah coordinates", "demos/motmetrics4norfair/src/motmetrics4norfair_xyah.py"), ("evaluation of ByteTrack", "demos/motmetrics4norfair/src/motmetrics4bytetrack.py")],
  "Scripts run in process; model of the counters, files found, motmetrics on the saved predictions.", ["stdout", "predictions/*.txt", "metrics.txt", "videos/*.mp4"])
p("C40", "Demos track what their detector reports and film every frame",
  "Each demo asks its detector about every frame (every n-th with a skip period) of every video given, in order, with the image in the layout that detector wants and the options given; hands each reported object of the classes it follows to a fresh tracker per video exactly once, with its box, center or keypoints, scores and label; updates the tracker once per frame, with the skip period where there are detections; and writes one frame per frame read, with the tracked objects drawn. "
  "Command line options reach the tracker, the motion estimator (whose mask covers the detections and, for boxes, the objects tracked, as far as they are in the frame, and nothing else) and the detector. "
  "The pieces of the demos do what they define: projections of the 3D demo follow their formulas, voting distances count the points that agree, actors collide when their boxes overlap.",
  ["inputs", "histories", "configurations"], "All scenes, clips, skip periods and options; detectors are replaced by stand-ins.", "No test imports a demo.",
  ["demos/%s" % x for x in ("yolov4/src/demo.py", "yolov5/src/demo.py", "yolov7/src/demo.py", "yolo_nas/src/demo.py", "sahi/src/demo.py", "detectron2/src/demo.py", "mmdetection/src/demo.py", "openpose/src/demo.py",
                            "keypoints_bounding_boxes/src/demo.py", "camera_motion/src/demo.py", "colab/demo.py", "3d_track/src/demo.py", "3d_track/src/utils.py", "reid/src/demo.py", "profiling/src/demo.py")],
  [("adapters from detectors", "demos/*/src/demo.py:yolo_detections_to_norfair_detections, get_detections, get_centroid"), ("projection", "demos/3d_track/src/utils.py:PixelCoordinatesProjecter")],
  "Demos run in process with recorded trackers, videos and stand-in detectors.", ["Tracker.update", "Video.write"])

manifest = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python vf/bootstrap.py",
    "hooks": {"guard": "NORFAIR_VERIF", "enable": "no hooks are needed: the checks import norfair from /repo as it is", "source_commits": []},
    "checks": [{
        "property": q["id"],
        "quick_cmd": "/opt/venv/bin/python check.py %s" % q["id"],
        "thorough_cmd": "/opt/venv/bin/python check.py %s --tier thorough" % q["id"],
        "technique": "property-based testing (Hypothesis, sharded, shrunk to a replay file)",
        "level": "exploration",
        "level_note": q["_note"] + " Search, not proof: it covers the generated cases reported in the evidence.",
    } for q in P],
    "not_applicable": [],
    "notes": "check.py <ID> --replay <file> re-runs a shrunk failing case. DESIGN.md describes generators, oracles and findings.",
}
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for q in P:
        q = {k: (v.strip() if isinstance(v, str) else v) for k, v in q.items() if not k.startswith("_")}
        f.write(json.dumps(q) + "\n")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
