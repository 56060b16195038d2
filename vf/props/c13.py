"""Validation: bad arguments are refused with ValueError, good ones are accepted."""
import numpy as np
from hypothesis import strategies as st

from ..core import Sub, check, fail
from ..trk import call_update, detection
from ..util import check_equal_arrays

RULE = (
    "Generated constructor arguments, detections and distance results around the documented limits: each must be accepted "
    "or refused with ValueError according to the stated rule; after a refusal of a frame the tracker is still usable. "
    "Non-trivial: the case is refused, or compares rank-1 with rank-2 input over several frames."
)

GOOD_NAMES = ["frobenius", "mean_manhattan", "mean_euclidean", "iou", "iou_opt", "euclidean", "cityblock", "cosine", "chebyshev",
              "sqeuclidean", "braycurtis", "canberra", "correlation", "hamming", "jaccard", "minkowski", "mahalanobis", "seuclidean"]


def raises_value_error(fn):
    try:
        fn()
    except ValueError:
        return True
    return False


ctor = st.fixed_dictionaries({
    "hcm": st.integers(1, 20), "delay": st.one_of(st.none(), st.integers(-3, 24), st.integers(-3, 48).map(lambda v: v / 2)), "past": st.integers(-3, 6),
    "dist": st.one_of(st.sampled_from(GOOD_NAMES), st.sampled_from(["Euclidean", "", "iou ", "l2", "frobenious", "euclidian", "None"]),
                      st.sampled_from(["@call", "@none", "@int", "@list", "@bytes", "@lambda"])),
})


class CallableDistance:
    def __call__(self, det, obj):
        return 0.5


def run_ctor(case, rec):
    from norfair import Tracker

    hcm, delay, past, dist = case["hcm"], case["delay"], case["past"], case["dist"]
    good = past >= 0 and (delay is None or 0 <= delay < hcm)
    if dist.startswith("@"):
        d = {"@call": CallableDistance(), "@none": None, "@int": 3, "@list": ["iou"], "@bytes": b"iou", "@lambda": lambda a, b: 0.5}[dist]
        good = good and dist in ("@call", "@lambda")
    else:
        d = dist
        good = good and dist in GOOD_NAMES
    rec.nontrivial = not good
    rec.tag("good" if good else "refused")

    def build():
        t = Tracker(d, 1.0, hit_counter_max=hcm, initialization_delay=delay, past_detections_length=past)
        check(t.current_object_count == 0 and t.total_object_count == 0 and t.update() == [], "a new tracker is not empty")

    check(raises_value_error(build) != good, "Tracker(%r, hit_counter_max=%r, initialization_delay=%r, past_detections_length=%r) should %s",
          dist, hcm, delay, past, "work" if good else "raise ValueError")


shapes = st.fixed_dictionaries({"shape": st.lists(st.one_of(st.integers(1, 3), st.integers(1, 3), st.integers(1, 9)), min_size=1, max_size=5), "seed": st.one_of(st.integers(0, 99), st.integers(-2000, 2000))})


def run_points(case, rec):
    from norfair import Detection

    a = (np.arange(int(np.prod(case["shape"])), dtype=float) * 1.5 + case["seed"]).reshape(case["shape"])
    keep = a.copy()
    r = len(case["shape"])
    if r > 2:
        rec.nontrivial = True
        check(raises_value_error(lambda: Detection(a)), "Detection accepts points of shape %s", a.shape)
        check(raises_value_error(lambda: Detection(points=a, scores=np.ones(a.shape[0]))), "Detection accepts points of shape %s", a.shape)
    else:
        d = Detection(a)
        check_equal_arrays(d.points, keep.reshape((1, -1)) if r == 1 else keep, "points of a detection built from shape %s" % (a.shape,))
        check_equal_arrays(d.absolute_points, d.points, "absolute_points of a new detection")
        check(d.scores is None and d.data is None and d.label is None and d.embedding is None, "default fields of a detection are not None")
        s = np.arange(d.points.shape[0]) / 2
        e = Detection(a, s, {"k": 1}, "lab", (1, 2))
        check(np.array_equal(e.scores, s) and e.data == {"k": 1} and e.label == "lab" and e.embedding == (1, 2), "fields of a detection were not stored")
    rec.tag("rank %d" % r)


bad = st.fixed_dictionaries({
    "n": st.integers(0, 3), "what": st.sampled_from(["none", "array", "tuple", "str", "number", "drawable", "object"]), "first": st.booleans(),
    "prior": st.integers(0, 3),
})


def run_not_detection(case, rec):
    from norfair import Tracker

    t = Tracker(lambda a, b: 0.25 if hasattr(a, "points") else 1e6, 1.0, hit_counter_max=20, initialization_delay=0)
    x = {"none": None, "array": np.zeros((1, 2)), "tuple": (1, 2), "str": "det", "number": 3.0, "drawable": {"points": 1}, "object": object()}[case["what"]]
    # nothing is tracked yet, so the alien is not given to the distance function
    check(raises_value_error(lambda: t.update([x])), "update accepts %r as a detection", x)
    rec.nontrivial = True
    for k in range(case["prior"]):
        r = t.update([detection([[k, k]])])
        check(len(r) == 1, "the tracker does not work after refusing a frame")


class OtherDetection:
    """Looks like a detection and is none."""

    def __init__(self, points):
        self.points = self.absolute_points = points
        self.scores = self.data = self.label = self.embedding = None
        self.age = None


duck = st.fixed_dictionaries({
    "frames": st.lists(st.lists(st.integers(0, 8), max_size=3), max_size=5), "at": st.integers(0, 8), "index": st.integers(0, 3),
    "what": st.sampled_from(["other"] * 4 + ["tracked", "none", "array", "tuple", "str", "number", "dict", "object"]),
    "dist": st.sampled_from(["@call", "euclidean", "frobenius"]), "delay": st.integers(0, 2), "rest": st.lists(st.integers(0, 8), max_size=2),
    "after": st.lists(st.lists(st.integers(0, 8), max_size=3), max_size=4), "camera": st.sampled_from([False, False, True]), "reid": st.booleans(),
    "period": st.integers(1, 3),
})


def run_duck(case, rec):
    """What is no detection is refused by a tracker with objects too, near one of them or not, and the tracker goes on as if it had not been asked."""
    from norfair import Tracker
    from norfair.camera_motion import TranslationTransformation

    def make():
        kw = {}
        if case["reid"]:
            kw = dict(reid_distance_function=lambda a, b: float(abs(a.estimate - b.estimate).max()), reid_distance_threshold=11.0, reid_hit_counter_max=4)
        return Tracker((lambda d, o: float(np.linalg.norm(d.points - o.estimate))) if case["dist"] == "@call" else case["dist"], 2.5,
                       hit_counter_max=5, initialization_delay=case["delay"], **kw)

    trackers = [make(), make()]

    def step(t, xs, k):
        cam = {"coord_transformations": TranslationTransformation(np.array([-3.0 * k, 1.0]))} if case["camera"] else {}
        return t.update([detection([[10.0 * x, 1.0]]) for x in xs], **cam)

    for k, xs in enumerate(case["frames"]):
        for t in trackers:
            step(t, xs, k)
    t, twin = trackers
    pts = np.array([[10.0 * case["at"], 1.0]])
    what = case["what"]
    alien = {"none": None, "array": pts, "tuple": (1, 2), "str": "det", "number": 3.0, "dict": {"points": pts}, "object": object(), "other": OtherDetection(pts)}.get(what)
    if what == "tracked":
        other = Tracker("euclidean", 1.0, initialization_delay=0)
        other.update([detection(pts)])
        alien = other.tracked_objects[0]
    dets = [detection([[10.0 * x, 1.0]]) for x in case["rest"]]
    dets.insert(min(case["index"], len(dets)), alien)
    near = any(abs(float(o.estimate[0, 0]) - 10.0 * case["at"]) < 2.5 for o in t.tracked_objects if o.hit_counter >= 0)
    rec.tag("near an object" if near else "far from objects", what)
    rec.nontrivial = bool(t.tracked_objects)
    cam = {"coord_transformations": TranslationTransformation(np.array([-3.0 * len(case["frames"]), 1.0]))} if case["camera"] else {}
    check(raises_value_error(lambda: t.update(dets, period=case["period"], **cam)), "update accepts %s as a detection (%s)", what, "near an object" if near else "far from objects")
    for k, xs in enumerate(case["after"]):
        a, b = step(t, xs, k + len(case["frames"])), step(twin, xs, k + len(case["frames"]))
        check([(o.id, o.age, o.hit_counter) for o in a] == [(o.id, o.age, o.hit_counter) for o in b],
              "%d frames after a refused update: objects %s, without it %s", k + 1, [(o.id, o.age, o.hit_counter) for o in a], [(o.id, o.age, o.hit_counter) for o in b])
        for x, y in zip(a, b):
            check_equal_arrays(x.estimate, y.estimate, "estimate after a refused update")


nan = st.fixed_dictionaries({
    "frames": st.lists(st.lists(st.integers(0, 8), min_size=1, max_size=3), min_size=1, max_size=5),
    "kind": st.sampled_from(["callable", "vector", "reid", "nan points"]),
    "when": st.integers(1, 12), "delay": st.integers(0, 2),
})


def run_nan(case, rec):
    """A NaN anywhere in the distances of a frame is refused."""
    from norfair import Tracker

    calls = {"n": 0, "nan": False}

    def value():
        calls["n"] += 1
        if calls["n"] == case["when"]:
            calls["nan"] = True
            return float("nan")
        return None

    def dist(det, obj):
        d = abs(float(det.points[0, 0] - obj.estimate[0, 0]))
        if case["kind"] == "callable" and value() is not None:
            return np.nan
        return d

    def reid(a, b):
        if case["kind"] == "reid" and value() is not None:
            return np.nan
        return 0.5

    kw = {}
    if case["kind"] == "reid":
        kw = dict(reid_distance_function=reid, reid_distance_threshold=1.0, reid_hit_counter_max=4)
    t = Tracker("euclidean" if case["kind"] in ("vector", "nan points") else dist, 3.5, hit_counter_max=3, initialization_delay=case["delay"], **kw)
    rec.tag(case["kind"])
    for f, xs in enumerate(case["frames"]):
        dets = [detection([[x, 1.0]]) for x in xs]
        expect = False
        if case["kind"] in ("vector", "nan points") and f + 1 == case["when"] and t.tracked_objects and any(o.hit_counter >= 0 for o in t.tracked_objects):
            dets[-1] = detection([[float("nan"), 1.0]])
            expect = True
        try:
            call_update(t, 0, dets, 1)
        except ValueError:
            check(expect or calls["nan"], "update raised ValueError although no distance was NaN")
            rec.nontrivial = True
            return
        check(not calls["nan"] and not expect, "a NaN distance was accepted")


infinite = st.fixed_dictionaries({
    "rows": st.lists(st.lists(st.sampled_from([0.5, 0.75, 3.0, 1e300, "inf", "inf", "-inf", -2.0, 1e308]), min_size=4, max_size=4), min_size=1, max_size=4),
    "n": st.integers(1, 4), "reid": st.booleans(), "frames": st.integers(1, 3),
})


def run_infinite(case, rec):
    """Distances that are infinite or huge, of either sign, are no NaN: they are accepted."""
    from norfair import Tracker

    table = [[float(v) for v in r] for r in case["rows"]]

    def dist(det, obj):
        return table[det.data % len(table)][(obj.last_detection.data or 0) % 4]

    kw = dict(reid_distance_function=lambda a, b: table[a.last_detection.data % len(table)][b.last_detection.data % 4], reid_distance_threshold=1.0,
              reid_hit_counter_max=5) if case["reid"] else {}
    t = Tracker(dist, 1.0, hit_counter_max=3, initialization_delay=1 if case["reid"] else 0, **kw)
    flat = [v for r in table for v in r]
    rec.nontrivial = np.isinf(flat).any()
    rec.tag("both signs" if float("inf") in flat and float("-inf") in flat else "one sign")
    t.update([detection([[9.0 * k, 1.0]], data=k) for k in range(case["n"])])
    for f in range(case["frames"]):
        try:
            t.update([detection([[9.0 * k, f]], data=k) for k in range(case["n"])])
        except ValueError as e:
            fail("distances %s, none of them NaN, are refused: %s", table, e)


rank = st.fixed_dictionaries({
    "frames": st.lists(st.lists(st.lists(st.integers(0, 30), min_size=3, max_size=3), max_size=3), min_size=2, max_size=8),
    "dim": st.sampled_from([2, 2, 3]), "dist": st.sampled_from(["euclidean", "frobenius", "mean_euclidean"]), "delay": st.integers(0, 2),
})


def run_rank(case, rec):
    """A single point given as a flat array is the same as an array of one point."""
    from norfair import Detection, Tracker

    a, b = [Tracker(case["dist"], 10.3, hit_counter_max=4, initialization_delay=case["delay"]) for _ in range(2)]
    n = 0
    for f, dets in enumerate(case["frames"]):
        pts = [np.array(c[: case["dim"]], float) + 0.001 * i + 0.0137 * f * i for i, c in enumerate(dets)]
        ra = a.update([Detection(p.copy(), np.array([0.5]) if f % 2 else None) for p in pts])
        rb = b.update([Detection(p.copy().reshape(1, -1), np.array([0.5]) if f % 2 else None) for p in pts])
        check(len(ra) == len(rb), "frame %d: %d objects from flat points, %d from arrays of one point", f, len(ra), len(rb))
        for x, y in zip(ra, rb):
            n += 1
            check(x.estimate.shape == (1, case["dim"]), "estimate has shape %s", x.estimate.shape)
            check_equal_arrays(x.estimate, y.estimate, "estimate from flat points")
            check(x.id == y.id and x.hit_counter == y.hit_counter, "ids or counters differ")
    rec.nontrivial = n > 2


SUBS = [
    Sub("constructor", lambda: ctor, run_ctor, 1500, 20000),
    Sub("points", lambda: shapes, run_points, 500, 5000),
    Sub("not_detection", lambda: bad, run_not_detection, 300, 3000),
    Sub("matched_alien", lambda: duck, run_duck, 1200, 15000),
    Sub("nan", lambda: nan, run_nan, 1500, 20000),
    Sub("infinite", lambda: infinite, run_infinite, 400, 5000),
    Sub("rank1", lambda: rank, run_rank, 600, 10000),
]
