"""The demo scripts, with stand-ins for their detectors."""
import contextlib
import inspect
import io
import os
import types
from unittest.mock import MagicMock

import numpy as np
from hypothesis import strategies as st

from ..core import Discard, Sub, check
from ..demo import path as demo, run_script, swapped
from ..scratch import scratch
from .c22 import world

RULE = (
    "scripts: the demos for YOLOv4, v5, v7 and NAS, SAHI, Detectron2, MMDetection (2), OpenPose, keypoints with boxes, MediaPipe (3D), moving cameras and Colab are run as scripts on "
    "generated clips with generated options and stand-ins for the detectors that report generated scenes; what reaches Tracker.update, the trackers made and the "
    "frames written are recorded. Non-trivial: at least 3 frames, with an empty one between two that are not, or two files. projection: the projections of the 3D "
    "demo against their documented formulas and each other. Non-trivial: the principal point is off the center. pieces: adapters, distances, generators and loops of the other demos (YOLOPv2, AlphaPose, profiling, reid) by "
    "their definitions. Non-trivial: more than one object, frame or vote. alphapose: its DataWriter is given generated people frame by frame (17 to 136 joints, with and "
    "without pose NMS) and writes images, video and results. Non-trivial: tracked people are drawn and there are frames without anybody."
)
ASSUMPTIONS = ["stand-ins have the documented interfaces of the detectors"]
W, H = 128, 96


class T:
    """As much of a torch tensor as the adapters use."""

    def __init__(self, a):
        self.a = np.asarray(a, float)

    def __getitem__(self, k):
        return T(self.a[k])

    def __len__(self):
        return len(self.a)

    def __iter__(self):
        return (T(x) for x in self.a)

    def item(self):
        return self.a.item()

    def tolist(self):
        return self.a.tolist()

    def cpu(self):
        return self

    def detach(self):
        return self

    def numpy(self):
        return self.a

    def __float__(self):
        return float(self.a)

    def __int__(self):
        return int(self.a)

    @property
    def shape(self):
        return self.a.shape


def xyxy(objs):
    return T(np.array([o["box"] + [o["score"], o["cls"]] for o in objs], float).reshape(-1, 6))


def xywh(objs):
    return T(np.array([[(o["box"][0] + o["box"][2]) / 2, (o["box"][1] + o["box"][3]) / 2, o["box"][2] - o["box"][0], o["box"][3] - o["box"][1], o["score"], o["cls"]]
                       for o in objs], float).reshape(-1, 6))


def center(o):
    b = o["box"]
    return [[(b[0] + b[2]) / 2, (b[1] + b[3]) / 2]]


def corners(o):
    return [o["box"][:2], o["box"][2:]]


def keypoints(o, k=25):
    """The keypoints of a person: some are not seen."""
    x, y, x2, y2 = o["box"]
    i = np.arange(k)
    p = np.stack([x + (x2 - x) * (i % 5) / 4, y + (y2 - y) * (i // 5) / 5, np.where((i + o["cls"]) % 7 == 0, 0.0, o["score"])], 1)
    p[p[:, 2] == 0] = 0
    return p


def landmarks(o):
    x, y, x2, y2 = [v / 100 for v in o["box"]]
    z = -2 - o["score"]
    return np.array([[(x + x2) / 2, (y + y2) / 2, z]] + [[a, b, c] for a in (x, x2) for b in (y, y2) for c in (z, z - 0.5)])


class Stage:
    """What the clips show, frame by frame, and what the scripts did with it."""

    def __init__(self, case, clips):
        self.case = case
        self.clips = clips
        self.calls = 0
        self.flat = [(j, f) for j, frames in enumerate(clips) for f in range(len(frames))]
        self.skip = case["skip"]
        self.order = [(j, f) for j, f in self.flat if f % self.skip == 0]
        self.updates, self.made, self.written, self.masks, self.kwargs = [], [], [], [], []
        self.parts, self.ratios, self.distances, self.devices = [], [], [], []

    def look(self, image, prepare=lambda frame: frame):
        """The objects of the frame that the detector is shown."""
        check(self.calls < len(self.order), "the detector was asked more than %d times", len(self.order))
        j, f = self.order[self.calls]
        self.calls += 1
        want = prepare(self.clips[j][f])
        check(np.array_equal(np.asarray(image), want), "call %d of the detector is not about frame %d of file %d", self.calls, f, j)
        return self.objs(j, f)

    def objs(self, j, f):
        return self.case["files"][j][f]


def mock(**kw):
    m = MagicMock()
    for k, v in kw.items():
        setattr(m, k, v)
    return m


def rgb(frame):
    return np.ascontiguousarray(frame[:, :, ::-1])


def torch_with(model, cuda=False):
    t = MagicMock()
    t.cuda.is_available.return_value = cuda
    t.hub.load.side_effect = lambda *a, **k: model
    return t


def hub_model(stage):
    def predict(image, *a, **k):
        stage.kwargs.append((dict(vars(model)), k))
        objs = stage.look(image)
        return types.SimpleNamespace(xyxy=[xyxy(objs)], xywh=[xywh(objs)])

    class Model:
        def __call__(self, *a, **k):
            return predict(*a, **k)

        def __getattr__(self, name):
            if name.startswith("__"):
                raise AttributeError(name)
            if name in ("to", "cpu", "cuda"):
                def move(*a, **k):
                    stage.devices.append([*a, *k.values(), "cuda"][0] if name == "to" else name)
                    return self
                return move
            return lambda *a, **k: self

    model = Model()
    return model


# Every demo gives: script, arguments before the files, modules, and expected(objects) -> [(points, scores, label)]
def boxes_or_centers(case, stage, script, default, label=True):
    how = case["track"] or default
    args = (["--track-points", how] if case["track"] else [])
    if case["conf"] is not None:
        args += ["--conf-threshold", case["conf"]]
    if case["classes"]:
        args += ["--classes"] + case["classes"] + ["--img-size", 320]

    def expected(objs):
        return [(corners(o) if how == "bbox" else center(o), [o["score"]] * (2 if how == "bbox" else 1), o["cls"]) for o in objs]

    return {"script": script, "args": args, "expected": expected}


def placed(case, stage, d, model, cuda):
    """The thresholds, the model's name and its device are those asked for."""
    t = torch_with(model, cuda)
    other = case["extras"] & 2 and "colab" not in d["script"]
    if other:
        d["args"] += ["--iou-threshold", 0.6]
    if case["extras"] & 4:
        d["args"] += ["--device", "cpu"]
    name = None
    if "yolov5" in d["script"]:
        name = "yolov5m6"
        if case["extras"] & 8:
            d["args"] += ["--model-name", "yolov5n"]
            name = "yolov5n"
    iou = 0.6 if other else 0.45

    def after(trackers):
        check({attrs.get("iou") for attrs, _ in stage.kwargs} <= {iou}, "the detector's iou threshold is %s, expected %s", [a.get("iou") for a, _ in stage.kwargs][:3], iou)
        loaded = t.hub.load.call_args
        if name is not None:
            check(name in list(loaded[0]) + list(loaded[1].values()), "model %s was loaded, %s was asked for", loaded, name)
        where = [str(v) for v in ([loaded[1]["device"]] if loaded[1].get("device") is not None else []) + stage.devices]
        if case["extras"] & 4 and cuda:
            check(where and where[-1].startswith("cpu"), "the detector is on %s, the cpu was asked for", where or "the default device")
        if not case["extras"] & 4 or not cuda:
            check(not where or where[-1].startswith("cuda" if cuda else "cpu"), "the detector is on %s", where)

    d["after"], d["iou"] = after, iou
    return t


def yolo5(case, stage):
    d = boxes_or_centers(case, stage, demo("yolov5", "src", "demo.py"), "centroid")
    d["modules"] = {"torch": placed(case, stage, d, hub_model(stage), bool(case["extras"] & 1))}
    return d


def yolo7(case, stage):
    d = boxes_or_centers(case, stage, demo("yolov7", "src", "demo.py"), "bbox")
    d["args"] += ["--detector-path", "weights.pt"]
    tv = MagicMock()
    d["modules"] = {"torch": placed(case, stage, d, hub_model(stage), bool(case["extras"] & 1)), "torchvision": tv, "torchvision.ops": tv.ops, "torchvision.ops.boxes": tv.ops.boxes}
    return d


def nas(case, stage):
    d = boxes_or_centers(case, stage, demo("yolo_nas", "src", "demo.py"), "bbox")
    how = case["track"] or "bbox"
    names = ["class %d" % k for k in range(90)]

    where, asked = ["cpu"], []

    def predict(image, iou=None, conf=None, **k):
        asked.append((iou, conf))
        objs = stage.look(image)
        p = types.SimpleNamespace(labels=np.array([float(o["cls"]) for o in objs]), confidence=np.array([o["score"] for o in objs]),
                                  bboxes_xyxy=np.array([o["box"] for o in objs], float).reshape(-1, 4))
        return [types.SimpleNamespace(class_names=names, prediction=p)]

    model = mock(predict=predict)

    def place(device="cuda"):
        where.append(str(device))
        return model

    model.cuda.side_effect = model.to.side_effect = place
    sg = MagicMock()
    sg.training.models.get.return_value = model
    d["modules"] = {"torch": torch_with(None, True), "super_gradients": sg, "super_gradients.training": sg.training}
    cuda = bool(case["extras"] & 1)
    if not cuda:
        d["args"] += ["--device", "cpu"]
    if case["extras"] & 2:
        d["args"] += ["--iou-threshold", 0.6]

    def after(trackers):
        exp = (0.6 if case["extras"] & 2 else 0.45, 0.25 if case["conf"] is None else case["conf"])
        check(set(asked) == {exp}, "the detector's iou and confidence thresholds are %s, expected %s", asked[:3], exp)
        check(where[-1].startswith("cuda" if cuda else "cpu"), "the detector is on %s", where[-1])

    d["after"] = after
    d["modules"]["torch"].cuda.is_available.return_value = cuda
    d["expected"] = lambda objs: [(corners(o) if how == "bbox" else center(o), [o["score"]] * (2 if how == "bbox" else 1), names[o["cls"]]) for o in objs
                                  if not case["classes"] or o["cls"] in case["classes"]]
    return d


def yolo4(case, stage):
    import cv2

    def do_detect(model, image, conf, nms, cuda=1):
        objs = stage.look(image, lambda frame: cv2.cvtColor(cv2.resize(frame, (416, 416)), cv2.COLOR_BGR2RGB))
        return [[[o["box"][0] / W, o["box"][1] / H, o["box"][2] / W, o["box"][3] / H, o["score"], o["score"], o["cls"]] for o in objs]]

    tool = MagicMock()
    tool.torch_utils.do_detect = do_detect
    return {"script": demo("yolov4", "src", "demo.py"), "args": ["--output-path", "."] if case["conf"] else [], "expected": lambda objs: [(center(o), None, None) for o in objs if o["cls"] == 2],
            "modules": {"torch": torch_with(None, True), "models": MagicMock(), "tool": tool, "tool.torch_utils": tool.torch_utils, "tool.utils": tool.utils}}


def sahi(case, stage):
    asked = []

    def predict(sliced):
        def run(image, model, **k):
            asked.append((sliced, k))
            return types.SimpleNamespace(object_prediction_list=[types.SimpleNamespace(
                bbox=mock(to_voc_bbox=lambda o=o: list(o["box"])), score=types.SimpleNamespace(value=o["score"]), category=types.SimpleNamespace(id=o["cls"])) for o in stage.look(image)])
        return run

    s = MagicMock()
    s.predict.get_prediction = predict(False)
    s.predict.get_sliced_prediction = predict(True)
    args = ["--output-path", "clip0_out.mp4", "--skip-period", case["skip"]]
    if case["classes"]:
        args += ["--disable-sahi"]
    if case["track"]:
        args += ["--distance-threshold", 0.625, "--initialization-delay", 3, "--hit-counter-max", 7, "--slice-size", 48, "--overlap-ratio", 0.25]

    def after(trackers):
        for sliced, k in asked:
            check(sliced == (not case["classes"]), "slicing is %s although --disable-sahi was %sgiven", sliced, "" if case["classes"] else "not ")
            if sliced:
                check(k["slice_height"] == k["slice_width"] == (48 if case["track"] else 256), "slices of %s x %s", k["slice_height"], k["slice_width"])
                check(k["overlap_height_ratio"] == k["overlap_width_ratio"] == (0.25 if case["track"] else 0.2), "overlap of %s and %s", k["overlap_height_ratio"], k["overlap_width_ratio"])
        check(s.AutoDetectionModel.from_pretrained.call_args[1].get("confidence_threshold") == 0.3, "confidence threshold %s", s.AutoDetectionModel.from_pretrained.call_args)
        for t in trackers:
            exp = (0.625, 3, 7) if case["track"] else (0.7, 15, 30)
            got = (t.distance_threshold, t.initialization_delay, t.hit_counter_max)
            check(got == exp, "tracker with distance threshold, delay and hit counter %s, expected %s", got, exp)

    return {"script": demo("sahi", "src", "demo.py"), "args": args, "expected": lambda objs: [(corners(o), [o["score"]] * 2, o["cls"]) for o in objs],
            "modules": {"torch": torch_with(None), "sahi": s, "sahi.predict": s.predict, "sahi.prediction": s.prediction}, "skips": True, "after": after, "single": True, "last": True}


def detectron(case, stage):
    def predictor(cfg):
        def predict(image):
            objs = stage.look(image, rgb)
            boxes = types.SimpleNamespace(get_centers=lambda: T(np.array([center(o)[0] for o in objs], float).reshape(-1, 2)))
            return {"instances": types.SimpleNamespace(pred_boxes=boxes, pred_classes=T([o["cls"] for o in objs]), scores=T([o["score"] for o in objs]))}
        return predict

    d2 = MagicMock()
    d2.engine.DefaultPredictor = predictor
    return {"script": demo("detectron2", "src", "demo.py"), "args": [], "expected": lambda objs: [(center(o), None, None) for o in objs],
            "modules": {"detectron2": d2, "detectron2.config": d2.config, "detectron2.engine": d2.engine}, "single": True}


COCO = ["person", "bicycle", "car", "motorcycle", "airplane", "bus", "train", "truck", "boat"] + ["thing %d" % k for k in range(71)]
VEHICLES = (2, 3, 5, 7)


def mm_modules(stage):
    def infer(model, image):
        objs = stage.look(image)
        return [np.array([o["box"] + [o["score"]] for o in objs if o["cls"] == k], float).reshape(-1, 5) for k in range(80)]

    m = MagicMock()
    m.apis.inference_detector = infer
    m.core.get_classes = lambda name: list(COCO)
    return {"mmdet": m, "mmdet.apis": m.apis, "mmdet.core": m.core}


def vehicles(objs):
    return [(center(o), [o["score"]], k) for k in VEHICLES for o in objs if o["cls"] == k]


def mmdet(case, stage):
    return {"script": demo("mmdetection", "src", "demo.py"), "args": ["--output-path", "."] if case["conf"] else [], "expected": vehicles, "modules": mm_modules(stage)}


def mmdet_cars(case, stage):
    return {"script": demo("mmdetection", "mmdetection_cars.py"), "args": [], "expected": vehicles, "modules": mm_modules(stage), "fixed": "video", "single": True}


def op_modules(stage, none):
    op = MagicMock()

    class Datum:
        poseKeypoints = "stale"

    class Wrapper:
        def configure(self, config):
            pass

        def start(self):
            pass

        def emplaceAndPop(self, data):
            for d in data:
                objs = stage.look(d.cvInputData)
                d.poseKeypoints = np.stack([keypoints(o) for o in objs]) if objs else (None if none else np.zeros((0, 25, 3)) if len(objs) else np.zeros((1, 25, 3)))

    op.Datum = Datum
    op.VectorDatum = list
    op.WrapperPython = Wrapper
    return {"openpose": mock(pyopenpose=op), "openpose.pyopenpose": op}


def people(objs, label=None):
    return [(keypoints(o)[:, :2], keypoints(o)[:, 2], label) for o in objs]


def openpose(case, stage):
    def after(trackers):
        # points closer than a 40th of the height of their own video are the same
        from norfair import Detection

        for j in range(len(trackers)):
            pts, far = keypoints({"box": [10, 10, 60, 60], "score": 0.9, "cls": 0})[:, :2], stage.clips[j][0].shape[0] / 40
            p = Detection(pts, scores=np.full(len(pts), 0.9))
            apart = []
            for part in (0.7, 1.4):
                q = mock(estimate=pts + [part * far, 0], last_detection=p, label=None)
                apart.append(float(stage.distances[j](p, q)))
            check(apart[0] < apart[1] == 1, "file %d: points %.2f and %.2f apart are at distances %s in a video of height %d", j, 0.7 * far, 1.4 * far, apart, stage.clips[j][0].shape[0])

    return {"script": demo("openpose", "src", "demo.py"), "args": ["--skip-frame", case["skip"]], "expected": people, "after": after, "modules": op_modules(stage, case["conf"] is None), "skips": True}


def kp_boxes(case, stage):
    mods = op_modules(stage, case["conf"] is None)
    # the frame goes to OpenPose and to YOLO
    model = hub_model(stage)
    half = {"n": 0}
    look = stage.look

    def both(image, prepare=lambda frame: frame):
        if half["n"] % 2:
            stage.calls -= 1
        half["n"] += 1
        return look(image, prepare)

    stage.look = both
    mods["torch"] = torch_with(model)
    return {"script": demo("keypoints_bounding_boxes", "src", "demo.py"), "args": [], "modules": mods, "calls": 2, "half": half,
            "expected": lambda objs: people(objs, -1) + [(corners(o), [o["score"]] * 2, o["cls"]) for o in objs]}


def masked(boxes, size=(H, W)):
    """The pixels of the boxes, as far as they are inside of the frame."""
    exp = np.zeros(size, bool)
    for b in boxes:
        x, y, x2, y2 = [max(int(v), 0) for v in b]
        exp[y:y2, x:x2] = True
    return exp


def camera(case, stage):
    boxes = case["track"] == "bbox"
    kind = ["none", "translation", "homography"][case["skip"] - 1]
    stage.skip, stage.order = 1, stage.flat
    opts = case.get("opts", 0)
    shown = opts % 3 == 2
    args = ([] if shown else ["--save"]) + ["--transformation", kind, "--hit-counter-max", 9, "--initialization-delay", 1] + (["--track-boxes"] if boxes else [])
    if case["conf"] is not None:
        args += ["--confidence-threshold", case["conf"]]
    if case["classes"]:
        args += ["--distance-threshold", 0.75]
    args += ["--draw-objects"] * (case["extras"] & 1) + ["--draw-paths"] * (case["extras"] >> 1 & 1) + ["--draw-absolute-grid"] * (case["extras"] >> 2 & 1 and kind != "none")
    mask = not case["extras"] >> 3 & 1
    args += [] if mask else ["--no-mask-detections"]
    if kind == "translation" and case["extras"] >> 4 & 1:
        args += ["--fixed-camera-scale", 1.5]
    args += ["--draw-flow"] * (case["extras"] >> 5 & 1)
    iou, size = (0.3, 640) if case["seed"] & 1 else (0.15, 480)
    if case["seed"] & 1:
        args += ["--iou-threshold", iou, "--image-size", size]
    named = case["seed"] >> 1 and len(case["files"]) == 1 and not shown
    most, apart, history, ratio = (500, 7.0, 20, 1) if opts < 6 else (opts * 11, opts / 2, opts + 3, 2)
    if opts >= 6:
        args += ["--max-points", most, "--min-distance", apart, "--path-history", history] + ["--downsample-ratio", ratio] * shown
    if named:
        args += ["--output-name", "tracked.mp4"]
    classes = [0]
    if opts % 4 == 1:
        classes = [2, 5]
        args += ["--classes"] + classes + ["--model", "yolov5s"]
    torch = torch_with(hub_model(stage))

    def after(trackers):
        for t in trackers:
            exp = (0.75 if case["classes"] else 0.5 if boxes else H / 10, 1, 9, 0.15 if case["conf"] is None else case["conf"])
            got = (t.distance_threshold, t.initialization_delay, t.hit_counter_max, t.detection_threshold)
            check(got == exp, "tracker with distance threshold, delay, hit counter and detection threshold %s, expected %s", got, exp)
        for attrs, k in stage.kwargs:
            got = (attrs.get("iou"), k.get("size"), attrs.get("classes"))
            check(got == (iou, size, classes), "the detector's iou threshold, image size and classes are %s, expected %s", got, (iou, size, classes))
        if opts % 4 == 1:
            loaded = torch.hub.load.call_args
            check("yolov5s" in list(loaded[0]) + list(loaded[1].values()), "model %s was loaded, yolov5s was asked for", loaded)
        for what, k in stage.parts:
            if what == "motion":
                got = k.get("max_points"), k.get("min_distance"), bool(k.get("draw_flow"))
                check(got == (most, apart, bool(case["extras"] >> 5 & 1)), "the motion estimator's points, distance and flow are %s, expected %s", got, (most, apart, case["extras"] >> 5 & 1))
            elif what == "paths":
                check(k.get("max_history") == history, "paths of %r frames, expected %d", k.get("max_history"), history)
        count = [sum(what == w for what, _ in stage.parts) for w in ("motion", "paths")]
        exp = [0 if kind == "none" else len(case["files"]), len(case["files"]) * ("--draw-paths" in args)]
        check(count == exp, "%s motion estimators and path drawers were made, expected %s", count, exp)
        check(stage.ratios == ([ratio] * len(stage.flat) if shown else []), "frames shown at %s", stage.ratios)
        check(len(stage.masks) == (0 if kind == "none" else len(stage.flat)), "%d frames were given to the motion estimator of %d", len(stage.masks), len(stage.flat))
        for (j, f), m in zip(stage.flat, stage.masks):
            if not mask:
                check(m is None or np.all(m), "a mask although --no-mask-detections was given")
                continue
            exp = masked([o["box"] for o in stage.objs(j, f)])
            check(m is not None and m.shape == (H, W), "no mask of the frame's size")
            check(not np.any(m[exp]), "file %d, frame %d: detections are not masked", j, f)
            if boxes and f:
                more = masked([e.ravel() for e in stage.updates[stage.flat.index((j, f)) - 1]["all"]])
                check(not np.any(m[more]), "file %d, frame %d: tracked objects are not masked", j, f)
                exp |= more
            if not boxes or f or not j:
                check(np.all(m[~exp]), "file %d, frame %d: more than what is detected and tracked is masked", j, f)
        n = sum(1 for u in stage.updates if u["transform"] is not None)
        check(n == 0 if kind == "none" else n > 0 if kind == "translation" else True, "%d transformations for --transformation %s", n, kind)

    return {"script": demo("camera_motion", "src", "demo.py"), "args": args, "after": after, "modules": {"torch": torch}, "files": True,
            "expected": lambda objs: [(corners(o) if boxes else center(o), [o["score"]] * (2 if boxes else 1), o["cls"]) for o in objs], "draws": not set(args) & {"--draw-paths", "--draw-absolute-grid", "--fixed-camera-scale", "--draw-flow"}
            and "--draw-objects" in args, "out": "tracked.mp4" if named else None, "shown": shown, "plain": not set(args) & {"--draw-absolute-grid", "--fixed-camera-scale", "--draw-flow", "--draw-paths"}, "inits": True}


def colab(case, stage):
    how = case["track"] or "bbox"
    args = ["--detector-path", "weights.pt"] + (["--track-points", how] if case["track"] else [])
    args += ["--conf-threshold", case["conf"]] if case["conf"] is not None else []
    args += ["--classes"] + case["classes"] + ["--img-size", 320] if case["classes"] else []
    d = {"script": demo("colab", "demo.py"), "args": args, "single": True, "plain": False,
         "expected": lambda objs: [(corners(o) if how == "bbox" else center(o) * 2, [o["score"]] * 2, None) for o in objs]}
    d["modules"] = {"torch": placed(case, stage, d, hub_model(stage), bool(case["extras"] & 1))}
    return d


def mediapipe(case, stage):
    class Objectron:
        def __init__(self, **k):
            self.k = k
            stage.kwargs.append(k)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def process(self, image):
            objs = stage.look(image, rgb)
            made = [types.SimpleNamespace(landmarks_3d=types.SimpleNamespace(landmark=[types.SimpleNamespace(x=p[0], y=p[1], z=p[2]) for p in landmarks(o)])) for o in objs]
            return types.SimpleNamespace(detected_objects=made or None)

    mp = MagicMock()
    mp.solutions.objectron.Objectron = Objectron
    args = ["--model-name", "Cup", "--max-objects", 5] if case["track"] else []
    args += ["--hit-counter-max", 7, "--initialization-delay", 1, "--distance-threshold", 0.75] if case["classes"] else []

    def after(trackers):
        for k in stage.kwargs:
            exp = ("Cup", 5) if case["track"] else ("Shoe", 2)
            check((k["model_name"], k["max_num_objects"]) == exp, "the detector was made for %s", k)
        for t in trackers:
            exp = (7, 1, 0.75) if case["classes"] else (40, 10, 0.5)
            check((t.hit_counter_max, t.initialization_delay, t.distance_threshold) == exp, "tracker with %s", (t.hit_counter_max, t.initialization_delay, t.distance_threshold))

    return {"script": demo("3d_track", "src", "demo.py"), "args": args + ["--draw-paths"] * (case["extras"] & 1), "modules": {"mediapipe": mp}, "after": after,
            "expected": lambda objs: [(landmarks(o), None, None) for o in objs], "plain": False, "big": True}


DEMOS = {"yolov5": yolo5, "yolov7": yolo7, "yolo_nas": nas, "yolov4": yolo4, "sahi": sahi, "detectron2": detectron, "mmdetection": mmdet, "mmdetection_cars": mmdet_cars,
         "openpose": openpose, "keypoints": kp_boxes, "camera_motion": camera, "colab": colab, "3d_track": mediapipe}


@st.composite
def case_(draw):
    obj = st.builds(lambda x, y, w, h, s, c: {"box": [x / 4, y / 4, min((x + w) / 4, W), min((y + h) / 4, H)], "score": s, "cls": c}, st.one_of(st.integers(0, 4 * W - 40), st.integers(-80, 40)), st.one_of(st.integers(0, 4 * H - 40), st.integers(-60, 40)),
                    st.integers(20, 200), st.integers(20, 160), st.sampled_from([0.9, 0.5, 0.75, 0.3]), st.sampled_from([2, 2, 0, 1, 3, 5, 7, 41]))
    frame = st.one_of(st.lists(obj, max_size=4), st.lists(obj, min_size=1, max_size=3))
    still = st.tuples(frame, st.one_of(st.integers(1, 5), st.integers(1, 5), st.integers(10, 24))).map(lambda t: [t[0]] * t[1])
    clip = st.one_of(st.lists(frame, min_size=1, max_size=8), st.lists(st.one_of(still, still, frame.map(lambda f: [f])), min_size=1, max_size=3).map(lambda p: sum(p, [])))
    return {"demo": draw(st.sampled_from(sorted(DEMOS) + ["camera_motion"])), "files": draw(st.lists(clip, min_size=1, max_size=2)), "skip": draw(st.sampled_from([1, 2, 3])),
            "track": draw(st.sampled_from([None, "bbox", "centroid"])), "conf": draw(st.sampled_from([None, 0.4])), "classes": draw(st.sampled_from([None, [2], [0, 2]])),
            "extras": draw(st.integers(0, 63)), "opts": draw(st.integers(0, 15)), "seed": draw(st.integers(0, 3))}


def clip(path, n, w, h, seed):
    """Writes a clip and returns its frames as they are read."""
    import cv2

    img = world(seed)
    v = cv2.VideoWriter(path, cv2.VideoWriter_fourcc(*"mp4v"), 20, (w, h))
    for f in range(n):
        v.write(cv2.resize(img[100:100 + H, 100 + 2 * f:100 + 2 * f + W], (w, h)) if (w, h) != (W, H) else np.ascontiguousarray(img[100:100 + h, 100 + 2 * f:100 + 2 * f + w]))
    v.release()
    return frames_of(path)


def frames_of(path):
    import cv2

    v = cv2.VideoCapture(path)
    out = []
    while True:
        ok, frame = v.read()
        if not ok:
            break
        out.append(frame)
    v.release()
    return out


def run(case, rec):
    from norfair import Tracker, Video
    from norfair.camera_motion import MotionEstimator
    from norfair.drawing import AbsolutePaths

    name = case["demo"]
    if name in ("sahi", "openpose", "camera_motion"):
        skip = case["skip"]
    else:
        skip = case["skip"] = 1
    if name in ("sahi", "detectron2", "mmdetection_cars", "colab"):
        case["files"] = case["files"][:1]
    if name == "camera_motion":
        skip = 1
    size = (320, 240) if name == "3d_track" else (W, H)
    with scratch() as d:
        open(os.path.join(d, "weights.pt"), "w").close()
        os.makedirs(os.path.join(d, "models"))
        open(os.path.join(d, "models", "yolov5x6.pt"), "w").close()
        stems = ["video" if name == "mmdetection_cars" else "clip%d" % j for j in range(len(case["files"]))]
        sizes = [size, (2 * W, 2 * H) if name == "openpose" else size]
        clips = [clip(os.path.join(d, s + ".mp4"), len(f), sizes[j][0], sizes[j][1], case["seed"]) for j, (s, f) in enumerate(zip(stems, case["files"]))]
        if any(len(c) != len(f) for c, f in zip(clips, case["files"])):
            raise Discard()  # the clip could not be made
        stage = Stage(case, clips)
        spec = DEMOS[name](case, stage)
        real = {"init": Tracker.__init__, "update": Tracker.update, "write": Video.write, "iter": Video.__iter__, "motion": MotionEstimator.update}
        gens = []

        def init(self, *a, **k):
            real["init"](self, *a, **k)
            stage.made.append(self)
            stage.distances.append(inspect.signature(real["init"]).bind(self, *a, **k).arguments["distance_function"])

        def update(self, detections=None, period=1, coord_transformations=None):
            stage.updates.append({"tracker": self, "dets": [(np.array(x.points, float), None if x.scores is None else np.array(x.scores, float), x.label) for x in detections or []],
                                  "period": period, "transform": coord_transformations, "written": len(stage.written)})
            objs = real["update"](self, detections=detections, period=period, coord_transformations=coord_transformations)
            stage.updates[-1]["objs"] = [np.array(o.estimate) for o in objs if o.live_points.any()]
            stage.updates[-1]["all"] = [np.array(o.estimate) for o in objs]
            stage.updates[-1]["any"] = len(objs)
            return objs

        def write(self, frame):
            stage.written.append((self, np.array(frame)))
            return real["write"](self, frame)

        def it(self):
            g = real["iter"](self)
            gens.append((g, self))
            return g

        def motion(self, frame, mask=None):
            stage.masks.append(None if mask is None else np.array(mask))
            return real["motion"](self, frame, mask)

        def show(self, frame, downsample_ratio=1.0):
            stage.written.append((self, np.array(frame)))
            stage.ratios.append(downsample_ratio)
            return -1

        def made(what, cls):
            old = cls.__init__

            def init(self, *a, **k):
                got = inspect.signature(old).bind(self, *a, **k)
                got.apply_defaults()
                stage.parts.append((what, got.arguments))
                old(self, *a, **k)
            return cls, "__init__", init

        import urllib.request
        swaps = [(Tracker, "__init__", init), (Tracker, "update", update), (Video, "write", write), (Video, "__iter__", it), (MotionEstimator, "update", motion), (Video, "show", show),
                 made("motion", MotionEstimator), made("paths", AbsolutePaths),
                 (os, "system", lambda *a: 1), (urllib.request, "urlretrieve", lambda *a, **k: None)]
        args = spec["args"] if name == "mmdetection_cars" else [s + ".mp4" for s in stems] + spec["args"]
        try:
            with swapped(swaps):
                run_script(spec["script"], args, d, spec["modules"])
        finally:
            for g, v in gens:
                g.close()
                for thing in (v.video_capture, v.output_video):
                    if hasattr(thing, "release"):
                        thing.release()
        # trackers and detections
        check(len(stage.made) == len(clips), "%d trackers were made for %d videos", len(stage.made), len(clips))
        total = len(stage.flat)
        check(len(stage.updates) == total, "the tracker was updated %d times for %d frames", len(stage.updates), total)
        check(stage.calls == len(stage.order), "the detector was asked about %d frames of %d", stage.calls, len(stage.order))
        for (j, f), u in zip(stage.flat, stage.updates):
            check(u["tracker"] is stage.made[j], "file %d, frame %d: another file's tracker was updated", j, f)
            exp = spec["expected"](stage.objs(j, f)) if f % skip == 0 else []
            where = "%s, file %d, frame %d" % (name, j, f)
            check(len(u["dets"]) == len(exp), "%s: %d detections for %d objects", where, len(u["dets"]), len(exp))
            if f % skip == 0:
                check(u["period"] == skip, "%s: period %r, expected %d", where, u["period"], skip)
            left = list(exp)
            for p, s, label in u["dets"]:
                for k, (ep, es, el) in enumerate(left):
                    ep = np.asarray(ep, float)
                    if p.shape == ep.shape and np.allclose(p, ep, 0, 1e-3) and (s is None) == (es is None) and (s is None or (s.shape == np.shape(es) and np.allclose(s, es, 0, 1e-5))) and label == el:
                        del left[k]
                        break
                else:
                    check(False, "%s: a detection at %s (scores %s, label %r), expected one of %s", where, p.tolist(), None if s is None else s.tolist(), label, [(np.asarray(a).tolist(), b, c) for a, b, c in left][:3])
        # frames
        check(len(stage.written) == total, "%d frames were written, %d were read", len(stage.written), total)
        for n, ((j, f), (video, frame), u) in enumerate(zip(stage.flat, stage.written, stage.updates)):
            same = frame.shape == clips[j][f].shape and np.array_equal(frame, clips[j][f])
            if spec.get("plain", True):
                check(frame.shape == clips[j][f].shape, "file %d, frame %d was written with another size", j, f)
                if name == "camera_motion" and not spec["draws"]:
                    check(same, "file %d, frame %d: something was painted", j, f)
                elif not u["any"] and not u["dets"] and not (name == "sahi"):
                    check(same, "file %d, frame %d: something was painted although nothing is tracked", j, f)
            inside = any(((o >= 4) & (o < np.array(size) - 4)).all(axis=1).any() for o in u["objs"] if o.shape[1] == 2)
            if name == "keypoints":
                inside = False
            if inside and spec.get("plain", True) and (name != "camera_motion" or spec["draws"]):
                check(not same, "file %d, frame %d: the tracked objects were not drawn", j, f)
                rec.tag("drawn")
        if spec.get("plain", True) or name in ("colab", "3d_track"):
            for s, c in zip(stems, clips):
                out = os.path.join(d, spec.get("out") or s + "_out.mp4")
                if spec.get("shown"):
                    check(not os.path.exists(out), "%s was written without --save", os.path.basename(out))
                    continue
                check(os.path.isfile(out), "%s was not written", os.path.basename(out))
                check(len(frames_of(out)) == len(c), "%s has %d frames, expected %d", os.path.basename(out), len(frames_of(out)), len(c))
        if spec.get("after"):
            spec["after"](stage.made)
        if name in ("yolov5", "yolov7", "keypoints", "colab"):
            given = name in ("yolov5", "yolov7", "colab")
            for attrs, k in stage.kwargs:
                exp = case["conf"] if given and case["conf"] is not None else 0.25
                check(attrs.get("conf") == exp and attrs.get("iou") == spec.get("iou", 0.45), "the detector's thresholds are %r and %r, expected %r and %r", attrs.get("conf"), attrs.get("iou"), exp, spec.get("iou", 0.45))
                exp = case["classes"] if given and case["classes"] else None
                check(attrs.get("classes") == exp, "the detector's classes are %r, expected %r", attrs.get("classes"), exp)
                exp = 320 if given and case["classes"] else 720
                check(k.get("size") == exp, "the detector's image size is %r, expected %r", k.get("size"), exp)
    rec.tag(name)
    empty = [[not f for f in fs] for fs in case["files"]]
    rec.nontrivial = len(stage.flat) >= 3 and (len(clips) > 1 or any(True in e and not e[0] and not e[-1] for e in empty))


@st.composite
def proj_case(draw):
    num = st.one_of(st.integers(-20, 20).map(lambda v: v / 4), st.floats(-50, 50))
    pos = st.one_of(st.integers(1, 12).map(lambda v: v / 4), st.floats(0.05, 20))
    return {"size": [draw(st.integers(1, 4000)), draw(st.integers(1, 4000))], "f": draw(st.tuples(pos, pos).map(list)), "p": draw(st.tuples(num, num).map(list)),
            "how": draw(st.sampled_from(["default", "ndc", "pixel", "both"])), "points": draw(st.lists(st.tuples(num, num, pos, st.booleans()).map(lambda t: [t[0], t[1], -t[2] if t[3] else t[2]]), min_size=1, max_size=12))}


def run_proj(case, rec):
    g, _ = run_script(demo("3d_track", "src", "utils.py"), [], "/", name="utils")
    P = g["PixelCoordinatesProjecter"]
    size = np.array(case["size"], float)
    f, p = np.array(case["f"]), np.array(case["p"])
    if case["how"] == "both":
        try:
            P(tuple(case["size"]), focal_length_ndc=f, focal_length_pixel=f)
        except ValueError:
            return
        check(False, "parameters of both kinds were accepted")
    if case["how"] == "default":
        f, p = np.ones(2), np.zeros(2)
        pr = P(tuple(case["size"]))
    elif case["how"] == "ndc":
        pr = P(tuple(case["size"]), focal_length_ndc=f.copy(), principal_point_ndc=p.copy())
    else:
        pr = P(tuple(case["size"]), focal_length_pixel=f * size / 2, principal_point_pixel=(1 - p) * size / 2)
    pts = np.array(case["points"], float)
    keep = pts.copy()
    x, y, z = pts.T
    scale = 1 + np.abs(f).max() * (np.abs(pts[:, :2]).max() / np.abs(z).min()) + np.abs(p).max()
    ndc = np.stack([-f[0] * x / z + p[0], -f[1] * y / z + p[1], 1 / z], 1)
    got = pr.eye_2_ndc(pts)
    check(got.shape == ndc.shape and np.allclose(got, ndc, 0, 1e-8 * scale + 1e-9 / np.abs(z).min()), "eye_2_ndc gives %s, expected %s", got.tolist(), ndc.tolist())
    pix = np.stack([(1 + ndc[:, 0]) / 2 * size[0], (1 - ndc[:, 1]) / 2 * size[1]], 1)
    # in the documented formulas the principal point in pixels is (1 - p) * size / 2: the same only without an offset in x
    direct = np.stack([-f[0] * size[0] / 2 * x / z + (1 - p[0]) * size[0] / 2, f[1] * size[1] / 2 * y / z + (1 - p[1]) * size[1] / 2], 1)
    tol = 1e-8 * scale * size.max()
    check(np.allclose(pr.ndc_2_pixel(ndc), pix, 0, tol), "ndc_2_pixel gives %s, expected %s", pr.ndc_2_pixel(ndc).tolist(), pix.tolist())
    check(np.allclose(pr.eye_2_pixel(pts), direct, 0, tol), "eye_2_pixel gives %s, expected %s", pr.eye_2_pixel(pts).tolist(), direct.tolist())
    check(np.array_equal(pts, keep), "the points given were changed")
    rec.tag(case["how"])
    rec.nontrivial = case["how"] != "default" and bool(np.any(p))


@st.composite
def piece_case(draw):
    n = draw(st.integers(1, 20))
    num = st.integers(-40, 40).map(lambda v: v / 2)
    return {"what": draw(st.sampled_from(["yolopv2", "votes", "votes", "profiling", "collision", "reid", "actors"])), "seed": draw(st.integers(0, 10 ** 6)), "n": n, "skip": draw(st.integers(1, 4)),
            "flag": draw(st.booleans()), "border": draw(st.integers(1, 12)), "a": draw(st.lists(num, min_size=4, max_size=4)), "b": draw(st.lists(num, min_size=4, max_size=4))}


def run_piece(case, rec):
    rng = np.random.RandomState(case["seed"])
    rec.tag(case["what"])
    with scratch() as d:
        rec.nontrivial = bool({"yolopv2": yolopv2, "votes": votes, "profiling": profiling, "collision": collision, "reid": reid, "actors": actors}[case["what"]](case, rng, d))


def load(script, modules, cwd, name="loaded"):
    return run_script(script, [], cwd, modules, name=name)[0]


def yolopv2(case, rng, d):
    t, tv = MagicMock(), MagicMock()
    g = load(demo("yolopv2", "src", "utils.py"), {"torch": t, "torch.nn": t.nn, "torchvision": tv}, d)
    rows = np.round(rng.uniform(0, 600, (case["n"] - 1, 6)), 2)
    rows[:, 5] = rng.randint(0, 80, len(rows))

    class Row(T):
        data = property(lambda self: self.a)

        def __iter__(self):
            return (Row(x) for x in self.a)

    dets = g["yolop_detections_to_norfair_detections"]([Row(rows)])
    check(len(dets) == len(rows), "%d detections of %d", len(dets), len(rows))
    for r, x in zip(rows, dets):
        check(np.array_equal(x.points, r[:4].reshape(2, 2)) and np.array_equal(x.scores, r[[4, 4]]) and x.label == int(r[5]), "%s became %s, %s, %r", r.tolist(), x.points.tolist(), x.scores, x.label)
    return len(rows) > 1


def votes(case, rng, d):
    """The voting distances of the demos are the documented one."""
    from norfair import Detection

    if case["flag"]:
        t, a = MagicMock(), MagicMock()
        g = load(demo("alphapose", "writer.py"), {"torch": t, "torch.multiprocessing": t.multiprocessing, "alphapose": a, "alphapose.utils": a.utils, "alphapose.utils.pPose_nms": a.utils.pPose_nms,
                                                  "alphapose.utils.transforms": a.utils.transforms}, d)
        fn, thr = g["keypoints_distance"], lambda est: (10, 0.2)
    else:
        fn, thr = load_profiling(d)["rescaled_keypoints_vote"], lambda est: (np.linalg.norm(est[11] - est[15]) / 3, 0.01)
    last = False
    for _ in range(6):
        a, b = rng.uniform(0, 100, (2, 18, 2))
        b = np.where(rng.rand(18, 1) < 0.6, a + rng.uniform(-12, 12, (18, 2)), b)
        sa, sb = rng.choice([0.0, 0.15, 0.5, 0.9], (2, 18))
        obj = types.SimpleNamespace(estimate=b, last_detection=Detection(b, scores=sb))
        reach, score = thr(b)
        dist = np.hypot(*(a - b).T)
        if np.abs(dist - reach).min() < 1e-9:
            continue
        k = int(np.sum((dist < reach) & (sa > score) & (sb > score)))
        got = fn(Detection(a, scores=sa), obj)
        check(abs(got - 1 / (1 + k)) < 1e-12, "distance %r for %d votes", got, k)
        last = last or k > 1
    return last


def load_profiling(d):
    names = ["torch", "torch2trt", "torchvision", "torchvision.transforms", "trt_pose", "trt_pose.coco", "trt_pose.models", "trt_pose.parse_objects", "PIL", "PIL.Image"]
    return load(demo("profiling", "src", "utils.py"), {k: MagicMock() for k in names}, d)


def profiling(case, rng, d):
    from norfair import Detection, filter

    g = load_profiling(d)
    for key, cls in (("none", "NoFilterFactory"), ("filterpy", "FilterPyKalmanFilterFactory"), ("optimized", "OptimizedKalmanFilterFactory")):
        check(isinstance(g["get_filter_setup"](key), getattr(filter, cls)), "filter %s is %r", key, g["get_filter_setup"](key))
    calls = {"update": [], "detect": 0, "write": []}

    class Tracker:
        def update(self, detections=None, period=1):
            calls["update"].append((detections, period))
            return []

    class Video(list):
        def write(self, frame):
            calls["write"].append(frame)

    u = MagicMock()
    p = load(demo("profiling", "src", "demo.py"), {"utils": u}, d)["process_video"]
    frames = [np.full((8, 8, 3), k, np.uint8) for k in range(case["n"])]

    def post(cmap, paf):
        calls["detect"] += 1
        return [("dets", int(cmap[0, 0, 0]))]

    p(Video(frames), lambda data: (data, None), Tracker(), lambda f: f, post, case["skip"], case["flag"])
    exp = [([("dets", k)], case["skip"]) if k % case["skip"] == 0 else (None, 1) for k in range(case["n"])]
    check(calls["update"] == exp, "updates %s, expected %s", calls["update"], exp)
    check(len(calls["write"]) == (case["n"] if case["flag"] else 0), "%d frames written", len(calls["write"]))
    return case["skip"] > 1 and case["n"] > case["skip"]


def collision(case, rng, d):
    from norfair import Detection

    f = load(demo("reid", "src", "utils.py"), {}, d)["collision_detected"]
    boxes = []
    for v in (case["a"], case["b"]):
        x, y = sorted(v[::2]), sorted(v[1::2])
        if x[0] == x[1] or y[0] == y[1]:
            raise Discard()
        boxes.append((x, y))
    dets = [Detection(np.array([[x[0], y[0]], [x[1], y[0]], [x[0], y[1]], [x[1], y[1]]])) for x, y in boxes]
    (x, y), (u, v) = boxes
    exp = min(x[1], u[1]) > max(x[0], u[0]) and min(y[1], v[1]) > max(y[0], v[0])
    check(bool(f(*dets)) == bool(f(*dets[::-1])) == exp, "collision of %s and %s is %r / %r", boxes[0], boxes[1], f(*dets), f(*dets[::-1]))
    return exp


def actors(case, rng, d):
    """The generated video shows every actor where its detection says."""
    import random

    random.seed(case["seed"])
    g = load(demo("reid", "src", "video_generator.py"), {}, d)
    n = min(case["n"], 6)
    path, gt, pred = g["generate_video"](num_steps=n, num_objects=1 + case["skip"], canvas_size=300, det_err_sigma=0.5, output_path=os.path.join(d, "v.avi"))
    check(len(gt) == len(pred) == n and len(frames_of(path)) == n, "%d, %d detections and %d frames for %d steps", len(gt), len(pred), len(frames_of(path)), n)
    for a, b in zip(gt, pred):
        check(len(a) == 1 + case["skip"], "%d actors", len(a))
        homes = []
        for p in b:
            near = [k for k, q in enumerate(a) if np.abs(q.points - p.points).max() < 5]
            check(near, "a detection at %s is nobody's", p.points.tolist())
            homes.append(near[0])
        # actors hidden by another one are not detected, the others are
        for k, q in enumerate(a):
            lo, hi = q.points[0], q.points[-1]
            hits = [o for o in a if o is not q and (np.minimum(o.points[-1], hi) > np.maximum(o.points[0], lo)).all()]
            check(k in homes or hits or len(set(homes)) < len(homes), "an actor at %s is not detected", q.points.tolist())
    return n > 1


def reid(case, rng, d):
    from norfair import Detection, Tracker, Video, get_cutout

    n = min(case["n"], 8)
    made, updates, written = [], [], []
    typer = MagicMock()
    g = load(demo("reid", "src", "demo.py"), {"typer": typer}, d)
    path = os.path.join(d, "in.avi")
    frames = clip_avi(path, n, case["seed"] % 4)
    if len(frames) != n:
        raise Discard()
    scene = [[Detection(np.array([[x, y], [x + 30, y], [x, y + 20], [x + 30, y + 20.0]])) for x, y in rng.randint(5, 60, (1 + k % 2, 2))] for k in range(n)]
    fn = g["main"]
    hist = load(demo("reid", "src", "utils.py"), {}, d)["get_hist"]
    fn.__globals__["generate_video"] = lambda: (path, scene, scene)
    init, update, write = Tracker.__init__, Tracker.update, Video.write

    def new(self, *a, **k):
        init(self, *a, **k)
        made.append(self)

    def upd(self, detections=None, period=1, **k):
        updates.append((None if detections is None else list(detections), period))
        return update(self, detections=detections, period=period, **k)

    def wr(self, frame):
        written.append(np.array(frame))
        return write(self, frame)

    import contextlib
    import io
    with swapped([(Tracker, "__init__", new), (Tracker, "update", upd), (Video, "write", wr)]), contextlib.redirect_stdout(io.StringIO()):
        fn(os.path.join(d, "out.mp4"), case["skip"], case["flag"], case["border"])
    check(len(made) == 1 and (made[0].reid_distance_function is None) == case["flag"], "ReID is %s, disable_reid was %r", made and made[0].reid_distance_function, case["flag"])
    check(len(updates) == len(written) == n, "%d updates and %d frames for %d", len(updates), len(written), n)
    for k, ((dets, period), frame) in enumerate(zip(updates, written)):
        if k % case["skip"] == 0:
            check(dets == scene[k] and period == case["skip"], "frame %d: detections or period %r are others", k, period)
            check(all(x.embedding is not None for x in dets), "frame %d: a detection has no embedding", k)
            for x in dets:
                want = hist(get_cutout(x.points, frames[k]))
                check(np.shape(x.embedding) == np.shape(want) and np.allclose(x.embedding, want), "frame %d: an embedding is not that of the frame's cut-out", k)
        else:
            check(not dets, "frame %d: detections in a skipped frame", k)
        b = case["border"]
        check(frame.shape == (H + 2 * b, W + 2 * b, 3), "frame %d has the shape %s", k, frame.shape)
        edge = np.ones(frame.shape[:2], bool)
        edge[b:-b, b:-b] = False
        check(np.all(frame[edge] == 254), "frame %d: the border is not 254", k)
        check((frame[b:-b, b:-b] == frames[k]).all(axis=2).mean() > 0.3, "frame %d is another one", k)
    return n > 2


def clip_avi(path, n, seed):
    import cv2

    img = world(seed)
    v = cv2.VideoWriter(path, cv2.VideoWriter_fourcc(*"MJPG"), 20, (W, H))
    for f in range(n):
        v.write(np.ascontiguousarray(img[100:100 + H, 100 + 2 * f:100 + 2 * f + W]))
    v.release()
    return frames_of(path)


class Nd(np.ndarray):
    """An array with the methods of a tensor that AlphaPose's writer uses."""

    def size(self):
        return self.shape

    def dim(self):
        return self.ndim

    def numpy(self):
        return np.asarray(self)

    def unsqueeze(self, k):
        return np.expand_dims(self, k)


def nd(a):
    return np.asarray(a, float).view(Nd)


@st.composite
def pose_case(draw):
    person = st.builds(lambda x, y, s, keep: [x / 2, y / 2, s, keep], st.integers(0, 180), st.integers(0, 120), st.sampled_from([0.9, 0.6, 0.3, 0.15]), st.sampled_from([1, 1, 1, 0]))
    frame = st.one_of(st.lists(person, max_size=3), st.just([]), st.lists(person, min_size=1, max_size=2))
    part = st.tuples(frame, st.sampled_from([1, 2, 9, 10, 12, 20])).map(lambda t: [t[0]] * t[1])
    return {"frames": draw(st.lists(part, min_size=1, max_size=4).map(lambda p: sum(p, []))), "joints": draw(st.sampled_from([17, 17, 26, 21, 136])), "parts": draw(st.booleans()),
            "img": draw(st.booleans()), "video": draw(st.booleans()), "track": draw(st.booleans()), "none": draw(st.booleans()), "ext": draw(st.sampled_from([".mp4", ".avi"]))}


def run_pose(case, rec):
    """AlphaPose's writer tracks and draws every frame, and writes the people found."""
    import cv2
    from norfair import Tracker

    J, n = case["joints"], len(case["frames"])
    parts = case["parts"] and J == 136
    i = np.arange(J)
    off = np.stack([3.0 * (i % 6), 2.5 * (i // 6 % 9)], 1)
    torch, a = MagicMock(), MagicMock()
    torch.from_numpy, torch.cat, torch.mean = nd, lambda xs: np.concatenate(xs).view(Nd), lambda x: float(np.mean(x))
    spans = []

    def coords(kind):
        def run(hm, bbox, hm_shape=None, norm_type=None):
            spans.append((kind, len(hm)))
            h = np.asarray(hm).reshape(len(hm), 3)
            return h[:, :2] + np.array(bbox[:2]), h[:, 2:]
        return run

    a.utils.transforms.get_func_heatmap_to_coord = lambda cfg: [coords(0), coords(1)] if parts else coords(None)
    keeps = []

    def nms(boxes, scores, ids, img, sc, area, use_heatmap_loss=True):
        k = [j for j in range(len(scores)) if keeps[0][j]]
        keeps.pop(0)
        return boxes[k], scores[k], [ids[j] for j in k], img[k], sc[k], k

    a.utils.pPose_nms.pose_nms = nms
    written = []
    a.utils.pPose_nms.write_json = lambda result, path, form=None, for_eval=False: written.append(result)
    mods = {"torch": torch, "torch.multiprocessing": torch.multiprocessing, "alphapose": a, "alphapose.utils": a.utils, "alphapose.utils.pPose_nms": a.utils.pPose_nms,
            "alphapose.utils.transforms": a.utils.transforms, "alphapose.utils.vis": a.utils.vis}
    with scratch() as d:
        Writer = load(demo("alphapose", "writer.py"), mods, d)["DataWriter"]
        cfg = MagicMock()
        cfg.DATA_PRESET = types.SimpleNamespace(get=lambda k, v=None: {"LOSS_TYPE": "Combined" if parts else "MSELoss"}.get(k, v), NUM_JOINTS=J, HEATMAP_SIZE=[64, 48])
        opt = types.SimpleNamespace(sp=True, save_img=case["img"], vis=False, pose_flow=False, outputpath=d, pose_track=case["track"], min_box_area=0, format=None, eval=False, vis_fast=False)
        save = os.path.join(d, "out" + case["ext"])
        w = Writer(cfg, opt, save_video=case["video"], video_save_opt={"savepath": save, "fourcc": cv2.VideoWriter_fourcc(*("mp4v" if case["ext"] == ".mp4" else "XVID")), "fps": 20, "frameSize": (W, H)})
        frames = [np.full((H, W, 3), (20, 90 + k % 100, 180), np.uint8) for k in range(n)]
        people = []
        for f, (frame, row) in enumerate(zip(frames, case["frames"])):
            keep = [1 if case["track"] else p[3] for p in row]
            if row and not case["track"]:
                keeps.append(keep)
            people.append([(off + p[:2], p[2] * (0.5 + (i % 3) / 4)) for p, k in zip(row, keep) if k])
            hm = np.array([np.column_stack([off, p[2] * (0.5 + (i % 3) / 4)]) for p in row]).reshape(-1, J, 1, 3)
            boxes = nd([[p[0], p[1], p[0] + 20, p[1] + 25] for p in row]).reshape(-1, 4)
            if not row:
                w.save(None if case["none"] else [], None, None, None, None, frame, "%03d.png" % f)
            else:
                w.save(boxes, nd([p[2] for p in row]), list(range(len(row))), nd(hm), boxes.copy(), frame, "%03d.png" % f)
        w.save(None, None, None, None, None, None, None)
        updates, update = [], Tracker.update

        def tracked(self, detections=None, *x, **k):
            objs = update(self, detections, *x, **k)
            live = [np.array(o.estimate)[np.array(o.live_points)] for o in objs]
            updates.append(([(np.array(t.points), np.array(t.scores)) for t in detections or []], any(((q >= 4) & (q < [W - 4, H - 4])).all(axis=1).any() for q in live), len(objs)))
            return objs

        from ..demo import stubs
        with swapped([(Tracker, "update", tracked)]), stubs(mods), contextlib.redirect_stdout(io.StringIO()):
            w.update()
        drawn = case["img"] or case["video"]
        check(len(updates) == (n if drawn else 0), "the tracker was updated %d times for %d frames", len(updates), n)
        for f, (dets, _, _) in enumerate(updates):
            check(len(dets) == len(people[f]), "frame %d: %d detections of %d people", f, len(dets), len(people[f]))
            for (p, s), (ep, es) in zip(dets, people[f]):
                check(np.allclose(p, ep) and s.shape == es.shape and np.allclose(s, es), "frame %d: a detection at %s with scores %s, expected %s and %s", f, p[:3].tolist(), s[:3], ep[:3].tolist(), es[:3])
        if parts:
            check(all(c == (J - 110 if kind == 0 else 110) for kind, c in spans), "joints of the parts: %s", spans[:2])
        if case["img"]:
            for f, frame in enumerate(frames):
                got = cv2.imread(os.path.join(d, "vis", "%03d.png" % f))
                check(got is not None, "image %d was not written", f)
                same = np.array_equal(got, frame[:, :, ::-1])
                check(same or updates[f][2], "image %d: something was painted although nothing is tracked", f)
                check(not same or not updates[f][1], "image %d: the tracked people were not drawn", f)
        check(os.path.isfile(save) == case["video"], "the video was %s", "not written" if case["video"] else "written")
        if case["video"]:
            check(len(frames_of(save)) == n, "%d frames in the video of %d", len(frames_of(save)), n)
        exp = [("%03d.png" % f, people[f]) for f in range(n) if case["frames"][f]]
        check(len(written) == 1 and [r["imgname"] for r in written[0]] == [e[0] for e in exp], "the results are about %s, expected %s", [r["imgname"] for r in written[0]], [e[0] for e in exp])
        for r, (name, e) in zip(written[0], exp):
            check(len(r["result"]) == len(e) and all(np.allclose(x["keypoints"], y[0]) for x, y in zip(r["result"], e)), "%s: the people written are not the ones found", name)
    rec.nontrivial = drawn and any(u[1] for u in updates) and [] in case["frames"]


SUBS = [Sub("scripts", case_, run, 1600, 20000), Sub("projection", proj_case, run_proj, 400, 8000), Sub("pieces", piece_case, run_piece, 400, 8000), Sub("alphapose", pose_case, run_pose, 400, 6000)]
