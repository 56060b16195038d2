"""Tracking works the same without the optional dependencies; what needs them says so."""
import importlib
import io
import os
import sys
from contextlib import contextmanager, redirect_stdout

import numpy as np
from hypothesis import strategies as st

from ..core import Sub, check, fail
from ..scratch import scratch
from ..trk import FILTERS, detection

RULE = (
    "norfair is imported again with OpenCV, motmetrics and / or pandas made unimportable, in generated import orders, and driven with generated histories and operations. "
    "Everything that does not need the missing package (tracking with every filter and distance, camera transformations, the translation getter, colors, FixedCamera, the "
    "MOTChallenge files, tables and cut-outs, and drawing when only motmetrics is missing) must give bit-identical results to norfair with all packages; everything that "
    "does must raise ImportError with the extra to install. Non-trivial: a history with two objects or more was compared and a feature was refused."
)

MODULES = ["norfair", "norfair.tracker", "norfair.metrics", "norfair.camera_motion", "norfair.video", "norfair.drawing", "norfair.filter", "norfair.distances", "norfair.utils"]
_loaded = {}


class Blocker:
    def __init__(self, roots):
        self.roots = roots

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in self.roots:
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        return None


def load(missing, order):
    """norfair's modules, imported in the given order while the packages `missing` are not there."""
    key = (tuple(missing), tuple(order))
    if key in _loaded:
        return _loaded[key]
    roots = set(missing)
    drop = {"norfair", "motmetrics"} | roots
    saved = {k: v for k, v in sys.modules.items() if k.split(".")[0] in drop}
    blocker = Blocker(roots)
    for k in saved:
        del sys.modules[k]
    sys.meta_path.insert(0, blocker)
    try:
        mods = {m: importlib.import_module(m) for m in order}
        mods["norfair.drawing.drawer"] = importlib.import_module("norfair.drawing.drawer")
    finally:
        sys.meta_path.remove(blocker)
        inside = {k: v for k, v in sys.modules.items() if k.split(".")[0] in drop}
        for k in inside:
            del sys.modules[k]
        sys.modules.update(saved)
    mods[""] = (roots, drop, inside)
    _loaded[key] = mods
    return mods


@contextmanager
def without(mods):
    """What runs in here finds the modules (and misses the packages) of that load, also when it imports something late."""
    roots, drop, inside = mods[""]
    saved = {k: v for k, v in sys.modules.items() if k.split(".")[0] in drop}
    blocker = Blocker(roots)
    for k in saved:
        del sys.modules[k]
    sys.modules.update(inside)
    sys.meta_path.insert(0, blocker)
    try:
        yield
    finally:
        sys.meta_path.remove(blocker)
        for k in [k for k in sys.modules if k.split(".")[0] in drop]:
            del sys.modules[k]
        sys.modules.update(saved)


@st.composite
def case_(draw):
    npts = draw(st.sampled_from([1, 2, 2]))
    frames = draw(st.lists(st.lists(st.lists(st.integers(0, 60), min_size=2 * npts, max_size=2 * npts), max_size=3), min_size=1, max_size=8))
    order = draw(st.sampled_from([0, 0, 2, 3, 4, 5, 7]))
    return {
        "missing": draw(st.sampled_from([["cv2"], ["motmetrics"], ["pandas"], ["cv2", "motmetrics"], ["cv2", "motmetrics", "pandas"], ["motmetrics", "pandas"]])),
        "first": order, "npts": npts, "frames": frames, "filter": draw(FILTERS),
        "dist": draw(st.sampled_from(["euclidean", "mean_euclidean", "iou"] if npts == 2 else ["euclidean", "frobenius"])),
        "rep": draw(st.sampled_from([1, 1, 1, 2, 20, 60])), "hcm": draw(st.integers(1, 5)), "camera": draw(st.sampled_from([None, "t", "h"])),
        "ops": draw(st.lists(st.tuples(st.integers(0, 99), st.integers(0, 9)).map(list), min_size=1, max_size=6)),
    }


def factory(mods, spec):
    f = mods["norfair.filter"]
    return {"opt": f.OptimizedKalmanFilterFactory, "fpy": f.FilterPyKalmanFilterFactory, "no": f.NoFilterFactory}[spec[0]]()


def transformation(mods, kind, f):
    cm = mods["norfair.camera_motion"]
    if kind == "t":
        return cm.TranslationTransformation(np.array([1.5 * f, -0.5 * f]))
    return cm.HomographyTransformation(np.array([[1 + 0.01 * f, 0.0, f], [0.001, 1.0, -f], [1e-5, 0.0, 1.0]]))


def track(mods, case):
    n = mods["norfair"]
    t = n.Tracker(case["dist"], 1.5 if case["dist"] == "iou" else 25.0, hit_counter_max=case["hcm"], filter_factory=factory(mods, case["filter"]))
    out, objs = [], []
    for f, raw in enumerate(case["frames"] * case.get("rep", 1)):
        dets = []
        for i, c in enumerate(raw):
            p = np.array(c, float).reshape(case["npts"], 2)
            if case["npts"] == 2:
                p = np.array([p[0], p[0] + 10 + np.abs(p[1] - p[0])])
            dets.append(n.Detection(p + 0.01 * i))
        kw = {} if case["camera"] is None else {"coord_transformations": transformation(mods, case["camera"], f)}
        objs = t.update(dets, **kw)
        out.append([(o.id, o.age, o.hit_counter, np.asarray(o.estimate).tolist()) for o in t.tracked_objects])
    return out, t


def same_ops(mods, case, sc, v, tracker):
    """Operations that need no optional package: name -> thunk giving comparable data."""
    n, cm, m, d, u = mods["norfair"], mods["norfair.camera_motion"], mods["norfair.metrics"], mods["norfair.drawing"], mods["norfair.utils"]
    pts = np.array([[v, 2.0], [3.0, v + 5.0], [9.0, 1.0], [4.0, 4.0]])

    def getter():
        g = cm.TranslationTransformationGetter(bin_size=0.5)
        res = []
        for k in range(1, 4):
            ask, tr = g(pts + k * np.array([1.0, v]), pts)
            res.append([bool(ask), tr.abs_to_rel(pts).tolist()])
        return res

    def palette():
        d.Palette.set(["tab10", "tab20", "colorblind"][v % 3])
        r = [d.Palette.choose_color(k) for k in (v, v + 1, None, "x")]
        d.Palette.set("tab10")
        return [list(c) for c in r] + [list(d.Color.red)]

    def fixed():
        fc = d.FixedCamera(scale=2)
        out = None
        for k in range(3):
            out = fc.adjust_frame(np.full((6, 8, 3), 40 * (k + 1), np.uint8), cm.TranslationTransformation(np.array([k, v - 4])))
        return out.tolist()

    def files():
        seq = sc("SEQ")
        os.makedirs(os.path.join(seq, "det"), exist_ok=True)
        with open(os.path.join(seq, "seqinfo.ini"), "w") as f:
            f.write("[Sequence]\nname=SEQ\nseqLength=2\nframeRate=%d\n" % (v + 1))
        with open(os.path.join(seq, "det", "det.txt"), "w") as f:
            f.write("2,-1,%d,3,4,5,0.5,-1,-1,-1\n1,-1,7,8,9,10,1,-1,-1,-1\n" % v)
        parsed = [[(x.points.tolist(), x.scores.tolist()) for x in fr] for fr in m.DetectionFileParser(seq)]
        info = m.InformationFile(os.path.join(seq, "seqinfo.ini"))
        pred = m.PredictionsTextFile(seq, save_path=sc("out"))
        boxes = [o for o in tracker.tracked_objects if o.id is not None and case["npts"] == 2]
        pred.update(boxes)
        pred.update([])
        with open(os.path.join(sc("out"), "predictions", "SEQ.txt")) as f:
            return [parsed, info.search("frameRate"), f.read()]

    def table():
        buf = io.StringIO()
        with redirect_stdout(buf):
            u.print_objects_as_table(tracker.tracked_objects)
        return buf.getvalue()

    def cut():
        img = (np.arange(300) % 251).astype(np.uint8).reshape(10, 10, 3)
        return u.get_cutout(pts, img).tolist()

    def arguments():
        r = []
        for kw in ({}, {"camera": 0, "input_path": "x.mp4"}, {"camera": "0"}):
            try:
                n.Video(**kw)
                r.append("accepted")
            except ValueError as e:
                r.append(str(e))
        return r

    return {"getter": getter, "palette": palette, "fixed camera": fixed, "files": files, "table": table, "cut-out": cut, "arguments": arguments}


def draw_ops(mods, case, sc, v, tracker):
    """Operations that need OpenCV."""
    n, cm, d = mods["norfair"], mods["norfair.camera_motion"], mods["norfair.drawing"]
    box = n.Detection(np.array([[3.0, 4.0], [12.0, 13.0 + v]]), label="a")
    frame = np.zeros((40, 50, 3), np.uint8)
    objs = n.Tracker("euclidean", 10, hit_counter_max=3, initialization_delay=0).update([box])
    tr = cm.TranslationTransformation(np.array([1.0, 2.0]))
    moved = n.Tracker("euclidean", 10, hit_counter_max=3, initialization_delay=0).update([n.Detection(box.points)], coord_transformations=tr)
    world = (np.indices((40, 50)).sum(axis=0)[..., None] * np.array([7, 11, 13]) % 256).astype(np.uint8)

    def motion(g):
        est = cm.MotionEstimator(transformations_getter=g)
        r = est.update(world)
        return None if r is None else r.abs_to_rel(np.array([[1.0, 2.0]])).tolist()

    def video():
        vid = n.Video(input_path=sc("clip.mp4"))
        return [vid.input_height, vid.input_width, sum(1 for _ in vid)]

    def frames():
        seq = sc("IMG")
        os.makedirs(seq, exist_ok=True)
        with open(os.path.join(seq, "seqinfo.ini"), "w") as f:
            f.write("[Sequence]\nname=IMG\nimDir=img1\nframeRate=5\nseqLength=1\nimWidth=8\nimHeight=8\nimExt=.png\n")
        mods["norfair.video"].VideoFromFrames(seq, save_path=sc("out"), make_video=True)
        return "made"

    return {
        "draw_points": lambda: d.draw_points(frame, [box]).tolist(), "draw_boxes": lambda: d.draw_boxes(frame, objs).tolist(),
        "draw_tracked_boxes": lambda: d.draw_tracked_boxes(frame, objs).tolist() and frame.tolist(),
        "draw_tracked_objects": lambda: (d.draw_tracked_objects(frame, objs), frame.tolist())[1],
        "draw_absolute_grid": lambda: (d.draw_absolute_grid(frame, None), frame.tolist())[1],
        "Paths": lambda: d.Paths().draw(frame, objs).tolist(), "AbsolutePaths": lambda: d.AbsolutePaths().draw(frame, moved, tr).tolist(),
        "homography getter": lambda: cm.HomographyTransformationGetter().method,
        "MotionEstimator": lambda: motion(None), "MotionEstimator with translations": lambda: motion(cm.TranslationTransformationGetter()),
        "Video": video, "VideoFromFrames": frames,
        "text": lambda: mods["norfair.drawing.drawer"].Drawer.text(frame, "x", (5, 20), color=(1, 2, 3)).tolist(),
    }


def metric_ops(mods, case, sc, v, tracker):
    m = mods["norfair.metrics"]
    seq = sc("GT")
    os.makedirs(os.path.join(seq, "gt"), exist_ok=True)
    with open(os.path.join(seq, "seqinfo.ini"), "w") as f:
        f.write("[Sequence]\nname=GT\nseqLength=1\n")
    with open(os.path.join(seq, "gt", "gt.txt"), "w") as f:
        f.write("1,1,%d,3,40,50,1,-1,-1,-1\n" % (v + 1))
    rows = [[1, 1, v + 1, 3, 40, 50, -1, -1, -1, -1]]

    def accumulate():
        a = m.Accumulators()
        with redirect_stdout(io.StringIO()):
            a.create_accumulator(seq)
            a.update([])
            return a.compute_metrics(metrics=["num_misses"]).values.tolist()

    def create():
        # so that nobody processes a whole dataset before learning what is missing
        with redirect_stdout(io.StringIO()):
            m.Accumulators().create_accumulator(seq)
        return "made"

    return {
        "Accumulators": accumulate, "create_accumulator": create, "load_motchallenge": lambda: m.load_motchallenge(rows).values.tolist(),
        "eval_motChallenge": lambda: m.eval_motChallenge([rows], [seq], ["num_misses"])[1].values.tolist(),
    }


def run(case, rec):
    order = [MODULES[case["first"]]] + [m for m in MODULES if m != MODULES[case["first"]]]
    full = load([], MODULES)
    part = load(case["missing"], order)
    a, ta = track(full, case)
    with without(part):
        b, tb = track(part, case)
    check(a == b, "without %s tracking gives %s, with it %s", case["missing"], b, a)
    refused = 0
    for op, v in case["ops"]:
        with scratch() as folder:
            def sc(name):
                return os.path.join(folder, name)

            video_clip(sc("clip.mp4"))
            ops = {}
            ops.update({k: (w, None) for k, w in same_ops(part, case, sc, v, tb).items()})
            ops.update({k: (w, "video" if "cv2" in case["missing"] else None) for k, w in draw_ops(part, case, sc, v, tb).items()})
            ops.update({k: (w, "metrics" if {"motmetrics", "pandas"} & set(case["missing"]) else None) for k, w in metric_ops(part, case, sc, v, tb).items()})
            name = sorted(ops)[op % len(ops)]
            thunk, extra = ops[name]
            rec.tag(name)
            if extra is None:
                with without(part):
                    got = thunk()
                ref = {}
                for make in (same_ops, draw_ops, metric_ops):
                    ref.update(make(full, case, sc, v, ta))
                with without(full):
                    want = ref[name]()
                check(got == want, "%s without %s gives %s, with it %s", name, case["missing"], got, want)
            else:
                refused += 1
                try:
                    with without(part):
                        thunk()
                except ImportError as e:
                    check("norfair" in str(e) and "[%s]" % extra in str(e), "%s without %s says %r, not what to install", name, case["missing"], str(e))
                except Exception as e:  # noqa: BLE001
                    fail("%s without %s raises %s: %s instead of an ImportError that says what to install" % (name, case["missing"], type(e).__name__, e))
                else:
                    fail("%s without %s does not raise ImportError" % (name, case["missing"]))
    rec.tag("without " + "+".join(case["missing"]))
    rec.nontrivial = refused > 0 and any(len(f) >= 2 for f in a)


_clip = []


def video_clip(path):
    if not _clip:
        import cv2

        w = cv2.VideoWriter(path, cv2.VideoWriter_fourcc(*"mp4v"), 5.0, (32, 32))
        for k in range(3):
            w.write(np.full((32, 32, 3), 60 * k, np.uint8))
        w.release()
        with open(path, "rb") as f:
            _clip.append(f.read())
    else:
        with open(path, "wb") as f:
            f.write(_clip[0])


SUBS = [Sub("missing", case_, run, 600, 12000)]
