"""The MOTChallenge evaluation scripts, run as a user runs them."""
import functools
import os
import sys
import types

import numpy as np
from hypothesis import strategies as st

from ..core import Discard, Sub, check
from ..demo import path as demo, run_script, swapped
from ..scratch import scratch, write_seqinfo
from ..trk import effective_delay
from .c22 import world
from .c38 import AWAY, GHOST, MISSED, SEEN, expect, states
from .c40 import masked

RULE = (
    "Generated MOTChallenge folders (1-3 sequences with images cut from a textured world by a still or moving camera, 1-3 bodies that are there and seen, "
    "missed, false or away) are evaluated by demos/motmetrics4norfair/src/motmetrics4norfair.py, motmetrics4norfair_xyah.py and motmetrics4bytetrack.py (with a "
    "scripted tracker), in process, with every combination of options. Non-trivial: misses and false positives occur and the predictions are saved."
)
ASSUMPTIONS = ["py-motmetrics is trusted to compute its metrics from boxes", "bodies stay far from each other", "cv2's feature tracking is trusted on textures"]
W = 240
HITS = {"norfair": 8, "xyah": 2}


@st.composite
def seq(draw):
    m = draw(st.integers(1, 3))
    run = st.tuples(st.sampled_from([AWAY, SEEN, SEEN, SEEN, MISSED, MISSED, GHOST]), st.integers(1, 9)).map(list)
    back = st.tuples(st.integers(0, 2), st.integers(5, 9), st.integers(2, 12), st.integers(5, 9), st.integers(1, 9)).map(
        lambda c: [[AWAY, c[0]], [SEEN, c[1]], [MISSED, c[2]], [SEEN, c[3]], [AWAY, c[4]]])
    return {"bodies": draw(st.lists(st.one_of(st.lists(run, min_size=1, max_size=5), back, back), min_size=m, max_size=m)), "n": draw(st.one_of(st.integers(2, 22), st.integers(14, 22))),
            "rep": 1, "crowd": 1, "v": 0, "x0": draw(st.sampled_from([20.0, 60.25, 120.5, -15.0])), "camera": draw(st.one_of(st.just([0, 0]), st.tuples(st.integers(-5, 5), st.integers(-3, 3)).map(list))),
            "ext": draw(st.sampled_from([".jpg", ".png"])), "seed": draw(st.integers(0, 3))}


@st.composite
def case_(draw):
    return {"script": draw(st.sampled_from(["norfair", "norfair", "norfair", "xyah", "byte"])), "seqs": draw(st.lists(seq(), min_size=1, max_size=3)),
            "video": draw(st.sampled_from([0, 0, 0, 1])), "pred": draw(st.sampled_from([1, 1, 1, 0])), "metrics": draw(st.booleans()), "out": draw(st.sampled_from([None, "out", "a/b"])),
            "select": draw(st.sampled_from([None, None, 1, 2])), "slash": draw(st.booleans())}


@functools.lru_cache(maxsize=4)
def image(seed):
    return np.ascontiguousarray(np.vstack([world(seed), world(seed + 1)[:200]]))


def view(s, height, f):
    """Where the camera is in frame f: it goes there and comes back."""
    dx, dy = s["camera"]
    k = f if f % 16 < 8 else 0
    k = f % 16
    k = min(k, 16 - k)
    return 200 + dx * k, 40 + dy * k


def table_of(text):
    """{row: {column: value}} of the metrics printed."""
    lines = text.splitlines()
    at = [i for i, line in enumerate(lines) if "MOTA" in line and "IDF1" in line]
    check(at, "no table of metrics in %r", text[-300:])
    head = lines[at[-1]].split()
    out = {}
    for line in lines[at[-1] + 1:]:
        cells = line.split()
        if len(cells) != len(head) + 1:
            break
        out[cells[0]] = dict(zip(head, cells[1:]))
    return out


def byte_stub(log):
    """A tracker with the interface of ByteTrack: what it is given comes back, numbered by lane."""
    class Track:
        def __init__(self, row):
            self.tlbr = np.array(row[:4], float)
            self.track_id = int(round((row[1] + 60) // 200)) + 1

    class BYTETracker:
        def __init__(self, args, frame_rate=30):
            log.append(("new", frame_rate))

        def update(self, rows, info, size):
            log.append(("update", np.array(rows, float), list(info), list(size)))
            return [Track(r) for r in rows]

    mods = {n: types.ModuleType(n) for n in ("yolox", "yolox.tracker", "yolox.tracker.byte_tracker")}
    mods["yolox"].tracker = mods["yolox.tracker"]
    mods["yolox.tracker"].byte_tracker = mods["yolox.tracker.byte_tracker"]
    mods["yolox.tracker.byte_tracker"].BYTETracker = BYTETracker
    return mods


def run(case, rec):
    import cv2
    import motmetrics as mm
    from norfair import Tracker
    from norfair.camera_motion import MotionEstimator
    from norfair.metrics import Accumulators

    kind = case["script"]
    if kind == "xyah":
        for s in case["seqs"]:
            s["camera"] = [0, 0]
    want, log, made, seen = [], [], [], []
    for s in case["seqs"]:
        if kind == "byte":
            n, lines = states(s)
            shown, rows = [], []
            for f in range(n):
                now = [(k + 1, box(s, k, f)) for k in range(len(lines)) if lines[k][f] in (SEEN, GHOST)]
                rows = now or rows
                shown.append(rows)
            want.append((shown, None))
        else:
            shown, ev, _ = expect(s, 0, HITS[kind], effective_delay(HITS[kind], None))
            shown = [[(i, shift(s, b, f)) for i, b in row] for f, row in enumerate(shown)]
            want.append((shown, ev))
    old_init = Accumulators.__init__

    def init(self, *a, **k):
        made.append(self)
        old_init(self, *a, **k)

    real = MotionEstimator.update, Tracker.update

    def motion(self, frame, mask=None):
        seen.append((np.array(frame), None if mask is None else np.array(mask)))
        return real[0](self, frame, mask)

    def update(self, detections=None, *a, **k):
        boxes = [np.array(x.points).ravel() for x in detections or []]
        objs = real[1](self, detections, *a, **k)
        tracked.append((self, boxes, [np.array(o.estimate).ravel() for o in objs]))
        return objs

    tracked = []
    with scratch() as d, swapped([(Accumulators, "__init__", init), (MotionEstimator, "update", motion), (Tracker, "update", update)]):
        data = os.path.join(d, "data set")
        names, paths = ["SEQ-%02d" % (3 * j + 1) for j in range(len(case["seqs"]))], []
        for name, s in zip(names, case["seqs"]):
            p = os.path.join(data, name)
            paths.append(p)
            make(p, name, s)
        with open(os.path.join(data, "README.txt"), "w") as f:
            f.write("not a sequence")
        args = [data + ("/" if case["slash"] else "")]
        args += ["--make-video"] * case["video"] + ["--save-pred"] * case["pred"] + ["--save-metrics"] * case["metrics"]
        if case["out"]:
            args += ["--output-path", os.path.join(d, case["out"])]
        chosen = list(range(len(names)))
        if case["select"]:
            chosen = chosen[::-1][:case["select"]]
            args += ["--select-sequences"] + [names[j] for j in chosen]
        cwd = os.path.join(d, "cwd")
        os.makedirs(cwd)
        script = demo("motmetrics4norfair", "src", "motmetrics4%s.py" % {"norfair": "norfair", "xyah": "norfair_xyah", "byte": "bytetrack"}[kind])
        try:
            _, text = run_script(script, args, cwd, byte_stub(log) if kind == "byte" else ())
        finally:
            for a in made:
                for v in list(vars(a).values()):
                    if isinstance(v, types.GeneratorType):
                        v.close()
        if seen:
            check_masks(seen, tracked)
        out = os.path.join(d, case["out"]) if case["out"] else cwd
        files = {os.path.relpath(os.path.join(r, f), out) for r, _, fs in os.walk(out) for f in fs}
        expected = set()
        for j in chosen:
            expected |= {"predictions/%s.txt" % names[j]} if case["pred"] else set()
            expected |= {"videos/%s.mp4" % names[j]} if case["video"] else set()
        expected |= {"metrics.txt"} if case["metrics"] else set()
        check(files == expected, "the files written are %s, expected %s", sorted(files), sorted(expected))
        table = table_of(text)
        order = [names[j] for j in chosen]
        check(sorted(table) == sorted(order + ["OVERALL"]) and (not case["select"] or list(table) == order + ["OVERALL"]), "rows %s, expected %s", list(table), order)
        if case["metrics"]:
            with open(os.path.join(out, "metrics.txt")) as f:
                saved = f.read()
            check(saved.strip() and saved in text, "metrics.txt is not the table printed")
        # events
        for j in chosen:
            shown, ev = want[j]
            if ev is not None:
                row = table[names[j]]
                for col, key in (("FN", "num_misses"), ("FP", "num_false_positives"), ("IDs", "num_switches"), ("GT", "num_unique_objects")):
                    check(row[col] == str(ev[key]), "%s of %s is %s, expected %d", col, names[j], row[col], ev[key])
                if "mota" in ev:
                    check(abs(float(row["MOTA"].rstrip("%")) - 100 * ev["mota"]) < 0.06, "MOTA of %s is %s, expected %r", names[j], row["MOTA"], ev["mota"])
        # boxes
        for j in chosen:
            shown, s = want[j][0], case["seqs"][j]
            if case["pred"]:
                check_predictions(os.path.join(out, "predictions", names[j] + ".txt"), names[j], shown, s, kind)
            if case["video"]:
                v = cv2.VideoCapture(os.path.join(out, "videos", names[j] + ".mp4"))
                count = 0
                while True:
                    ok, frame = v.read()
                    if not ok:
                        break
                    check(frame.shape == (height(s), W, 3), "the video of %s has frames of %s", names[j], frame.shape)
                    count += 1
                v.release()
                check(count == s["n"], "the video of %s has %d frames of %d", names[j], count, s["n"])
        # from the predictions alone
        if case["pred"] and all(any(want[j][0]) for j in chosen):
            mm.lap.default_solver = "scipy"
            for j in chosen:
                gt = mm.io.loadtxt(os.path.join(paths[j], "gt", "gt.txt"), fmt="mot15-2D", min_confidence=1)
                ts = mm.io.loadtxt(os.path.join(out, "predictions", names[j] + ".txt"), fmt="mot15-2D")
                acc = mm.utils.compare_to_groundtruth(gt, ts, "iou", distth=0.5)
                direct = mm.metrics.create().compute(acc, metrics=["num_misses", "num_false_positives", "num_switches", "mota", "idf1"], name="x")
                row = table[names[j]]
                for col, key in (("FN", "num_misses"), ("FP", "num_false_positives"), ("IDs", "num_switches")):
                    check(row[col] == str(int(direct[key].iloc[0])), "%s of %s is %s, and %d from the predictions file", col, names[j], row[col], direct[key].iloc[0])
                for col, key in (("MOTA", "mota"), ("IDF1", "idf1")):
                    value = 100 * float(direct[key].iloc[0])
                    check((np.isnan(value) and "nan" in row[col]) or abs(float(row[col].rstrip("%")) - value) < 0.06, "%s of %s is %s, and %r from the predictions file", col, names[j], row[col], value)
            rec.tag("predictions evaluated")
        if kind == "byte":
            check_byte(case, chosen, log, paths)
    rec.tag(kind, "video" if case["video"] else "no video", "selected" if case["select"] else "all")
    if any(case["seqs"][j]["camera"] != [0, 0] for j in chosen):
        rec.tag("moving camera")
    text_rows = [table[names[j]] for j in chosen]
    rec.nontrivial = bool(case["pred"]) and any(int(r["FN"]) for r in text_rows) and any(int(r["FP"]) for r in text_rows)


def check_masks(seen, tracked):
    """The camera is estimated outside of the boxes detected and tracked so far, and everywhere else."""
    check(len(seen) == len(tracked), "the camera was estimated %d times for %d updates", len(seen), len(tracked))
    before, last = [], None
    for n, ((frame, m), (tracker, boxes, after)) in enumerate(zip(seen, tracked)):
        before, last = before if tracker is last else [], tracker
        check(m is not None and m.shape == frame.shape[:2], "update %d: no mask of the frame's size", n)
        exp = masked(boxes, m.shape)
        check(not np.any(m[exp]), "update %d: detections are not masked", n)
        more = masked(before, m.shape)
        check(not np.any(m[more]), "update %d: tracked objects are not masked", n)
        exp |= more
        check(np.all(m[~exp]), "update %d: more than what is detected and tracked is masked", n)
        before = after


def height(s):
    return 200 * len(s["bodies"]) + 10


def shift(s, b, f):
    x, y = view(s, height(s), f)
    x0, y0 = view(s, height(s), 0)
    return [b[0] - (x - x0), b[1] - (y - y0), b[2], b[3]]


def box(s, k, f):
    return shift(s, [s["x0"], 10.0 + 200 * k, 60.0 + k % 3, 80.0], f)


def make(p, name, s):
    import cv2

    n, lines = states(s)
    for sub in ("gt", "det", "img1"):
        os.makedirs(os.path.join(p, sub))
    write_seqinfo(p, name=name, imDir="img1", frameRate=25, seqLength=n, imWidth=W, imHeight=height(s), imExt=s["ext"])
    gt, det = [], []
    for f in range(n):
        x, y = view(s, height(s), f)
        cv2.imwrite(os.path.join(p, "img1", "%06d%s" % (f + 1, s["ext"])), image(s["seed"])[y:y + height(s), x:x + W])
        for k, line in enumerate(lines):
            row = "%d,%%d,%r,%r,%r,%r,%%s" % ((f + 1,) + tuple(box(s, k, f)))
            if line[f] in (SEEN, MISSED):
                gt.append(row % (k + 1, "1,1,1"))
            if line[f] in (SEEN, GHOST):
                det.append(row % (-1, "%r,-1,-1,-1" % [1.0, 0.75, 0.6][(f + k) % 3]))
    if not det or not gt:
        raise Discard()
    for what, rows in (("gt", gt), ("det", det)):
        with open(os.path.join(p, what, what + ".txt"), "w") as out:
            out.write("\n".join(rows) + "\n")


def check_predictions(path, name, shown, s, kind):
    with open(path) as f:
        rows = [[float(v) for v in line.split(",")] for line in f if line.strip()]
    number = {}
    moving = kind == "norfair" and s["camera"] != [0, 0]
    for f in range(len(shown)):
        got = sorted((r[2:6] + [r[1]] for r in rows if r[0] == f + 1), key=lambda r: r[1])
        exp = sorted((list(b) + [i] for i, b in shown[f]), key=lambda r: r[1])
        tol = 4 + 0.2 * f if moving else 0.05
        check(len(got) == len(exp) and all(np.allclose(p[:4], q[:4], 0, tol) for p, q in zip(got, exp)),
              "%s, frame %d: the boxes written are %s, expected %s", name, f + 1, [[round(v, 3) for v in g[:4]] for g in got], [e[:4] for e in exp])
        for p, q in zip(got, exp):
            check(number.setdefault(q[4], p[4]) == p[4], "%s, frame %d: the id of a body changed to %r", name, f + 1, p[4])
    check(len(rows) == sum(len(r) for r in shown), "%s: %d rows", name, len(rows))
    check(len(set(number.values())) == len(number), "%s: an id was given twice", name)


def check_byte(case, chosen, log, paths):
    runs = []
    for entry in log:
        if entry[0] == "new":
            check(entry[1] == 25, "the tracker was made for %r frames per second", entry[1])
            runs.append([])
        else:
            check(runs, "updated before it was made")
            runs[-1].append(entry)
    check(len(runs) == len(chosen), "%d trackers were made for %d sequences", len(runs), len(chosen))
    expected = []
    for j in chosen:
        s = case["seqs"][j]
        n, lines = states(s)
        calls = []
        for f in range(n):
            rows = [[b[0], b[1], b[0] + b[2], b[1] + b[3], [1.0, 0.75, 0.6][(f + k) % 3]] for k in range(len(lines)) if lines[k][f] in (SEEN, GHOST) for b in [box(s, k, f)]]
            if rows:
                calls.append((np.array(rows), [height(s), W]))
        expected.append(calls)
    for calls in runs:
        for k, exp in enumerate(expected):
            if len(calls) == len(exp) and all(c[1].shape == e[0].shape and np.allclose(c[1], e[0], 0, 1e-3) and c[2] == e[1] and c[3] == e[1] for c, e in zip(calls, exp)):
                del expected[k]
                break
        else:
            check(False, "the tracker was not given the detections of a sequence: %s", [c[1].tolist() for c in calls][:3])


@st.composite
def pair_case(draw):
    num = st.one_of(st.integers(-60, 60).map(lambda v: v / 4), st.floats(-1e3, 1e3))
    size = st.one_of(st.integers(1, 60).map(lambda v: v / 4), st.floats(0.01, 1e3))
    return {"boxes": draw(st.lists(st.tuples(num, num, size, size).map(list), min_size=2, max_size=6))}


def run_pair(case, rec):
    """The distance of the xyah script is 1 - IoU of the boxes meant."""
    from norfair import Detection

    import norfair
    from norfair import tracker as module

    used, init = [], module.Tracker.__init__

    def remember(self, distance_function=None, *a, **k):
        used.append(distance_function)
        init(self, distance_function, *a, **k)

    with scratch() as d, swapped([(module.Tracker, "__init__", remember)]):
        empty = os.path.join(d, "none")
        p = os.path.join(empty, "SEQ")
        make(p, "SEQ", {"bodies": [[[SEEN, 2]]], "n": 2, "rep": 1, "crowd": 1, "v": 0, "x0": 20.0, "camera": [0, 0], "ext": ".png", "seed": 0})
        run_script(demo("motmetrics4norfair", "src", "motmetrics4norfair_xyah.py"), [empty], d)
    check(used, "the script made no tracker")
    distance = used[0]
    if isinstance(distance, norfair.distances.Distance):
        made = distance
        distance = lambda det, obj: made.get_distances([obj], [det])[0, 0]
    if not callable(distance):
        raise Discard()
    for a in case["boxes"]:
        for b in case["boxes"]:
            det = Detection(np.array([[a[0], a[1]], [a[2] / a[3], a[3]]]))
            obj = types.SimpleNamespace(label=None, estimate=np.array([[b[0], b[1]], [b[2] / b[3], b[3]]]))
            w = min(a[0] + a[2] / 2, b[0] + b[2] / 2) - max(a[0] - a[2] / 2, b[0] - b[2] / 2)
            h = min(a[1] + a[3] / 2, b[1] + b[3] / 2) - max(a[1] - a[3] / 2, b[1] - b[3] / 2)
            inter = max(w, 0) * max(h, 0)
            exp = 1 - inter / (a[2] * a[3] + b[2] * b[3] - inter)
            got = distance(det, obj)
            check(abs(float(got) - exp) < 1e-6, "the distance between %s and %s is %r, expected %r", a, b, got, exp)
            if 0.01 < exp < 0.99:
                rec.nontrivial = True


SUBS = [Sub("script", case_, run, 160, 3000), Sub("iou_xyah", pair_case, run_pair, 60, 2000)]
