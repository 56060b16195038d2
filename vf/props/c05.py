"""Label isolation: tracking a mix of labels equals tracking each label on its own."""
import numpy as np
from hypothesis import strategies as st

from ..core import Sub, check
from ..trk import CAMERAS, FILTERS, LABELS, call_update, camera, counters, crowd, crowds, detection, filter_factory, label_choice, label_of
from ..util import check_near, jitter

RULE = (
    "Metamorphic: a stream of detections with labels of many types (None, '1' next to 1, 1 next to 1.0 and True, tuples, "
    "frozensets, empty and long strings) is tracked once as a whole and once per class of equal labels by a tracker of "
    "its own, and once more with a plain string in place of each class of labels; after every update the objects of each label (estimate, velocity, counters, live points, last detection, "
    "age, initialized or not) must be the same. Non-trivial: two different labels were each matched in one update."
)

DISTS = ["euclidean", "sqeuclidean", "cityblock", "chebyshev", "frobenius", "mean_euclidean", "mean_manhattan", "callable", "iou"]


@st.composite
def case_(draw):
    hcm, delay = draw(counters(6))
    dist = draw(st.sampled_from(DISTS))
    labels = draw(label_choice(draw(st.sampled_from([1, 2, 2, 3])), 4))
    npts = 2 if dist == "iou" else draw(st.integers(1, 3))
    det = st.tuples(
        st.integers(0, len(labels) - 1), st.integers(0, 3), st.lists(st.integers(0, 6), min_size=2 * npts, max_size=2 * npts)
    ).map(list)
    frames = draw(
        st.lists(st.tuples(st.integers(1, 2), st.lists(det, max_size=6)).map(list), min_size=2, max_size=9)
    )
    if draw(st.integers(0, 2)) > 0:
        # things that stay: the same few seen again and again, each close to where it was
        things = draw(st.lists(det, min_size=2, max_size=6))
        steps = draw(st.lists(st.tuples(st.integers(1, 2), st.lists(st.tuples(st.integers(0, 4), st.integers(0, 1)), min_size=len(things), max_size=len(things))), min_size=3, max_size=9))
        frames = []
        for period, seen in steps:
            dets = [[li, cell, [v + move for v in c]] for (li, cell, c), (there, move) in zip(things, seen) if there]
            frames.append([period, dets])
    return {
        "hcm": hcm, "delay": delay, "dist": dist, "labels": labels, "npts": npts, "frames": frames,
        "thr": draw(st.integers(2, 40)), "filter": draw(FILTERS), "past": draw(st.integers(0, 3)),
        "vary": dist != "iou" and draw(st.booleans()),
        "reid": draw(st.one_of(st.none(), st.none(), st.integers(0, 4))), "cam": draw(CAMERAS),
    }


@st.composite
def crowd_case(draw):
    c = draw(case_())
    c["dist"] = draw(st.sampled_from(DISTS[:-1]))
    c["npts"], c["vary"] = draw(st.integers(1, 2)), False
    c["frames"] = []
    c["crowd"] = draw(crowds([[1, 300], [2, 200], [3, 120], [12, 30], [40, 12], [90, 5]]))
    if draw(st.booleans()):
        c["labels"] = draw(st.lists(st.integers(0, len(LABELS) - 1), min_size=5, max_size=20, unique=True))
    return c


def run_crowd(case, rec):
    frames = [[1 + (f // 30) % 2, [[i % len(case["labels"]), 0, [x, y, x + 3, y + 2]] for i, x, y in things]] for f, things in enumerate(crowd(case["crowd"]))]
    rec.tag("many labels" if len(case["labels"]) > 4 else "few labels")
    run(dict(case, frames=frames), rec)


def build(case, classes):
    """All detections, per frame: (label class, detection factory)."""
    frames = []
    npts = case["npts"]
    for f, (period, dets) in enumerate(case["frames"]):
        out = []
        for i, (li, cell, c) in enumerate(dets):
            label = label_of(LABELS[case["labels"][li]])
            k = classes.index(label)
            n = npts
            if case["vary"]:
                n = 1 + k % 3
            c = [(v + 20 * cell + 0.3 * jitter(f, i, j)) for j, v in enumerate((c * 3)[: 2 * n])]
            if case["dist"] == "iou":
                c = [c[0], c[1], c[0] + 2 + (c[2] - c[0]) ** 2 / 8, c[1] + 2 + (c[3] - c[1]) ** 2 / 8]
            out.append((k, label, [c[2 * j: 2 * j + 2] for j in range(n)], (f, i)))
        frames.append((min(period, case["hcm"]), out))
    return frames


def make(case):
    from norfair import Tracker

    dist = case["dist"]
    thr = case["thr"] / 41 if dist == "iou" else float(case["thr"]) + 0.0173
    if dist == "sqeuclidean":
        thr = thr * thr
    if dist == "callable":
        def dist(det, obj):
            return float(np.abs(det.points - obj.estimate).max())
    kw = {}
    if case["reid"] is not None:
        def reid(new, old):
            return float(np.abs(new.estimate - old.estimate).max())
        kw = dict(reid_distance_function=reid, reid_distance_threshold=15.01, reid_hit_counter_max=case["reid"])
    return Tracker(dist, thr, hit_counter_max=case["hcm"], initialization_delay=case["delay"],
                   filter_factory=filter_factory(case["filter"]), past_detections_length=case["past"], **kw)


def snapshot(objs):
    out = {}
    for o in objs:
        key = o.last_detection.data
        check(key not in out, "two objects hold the same detection")
        out[key] = o
    return out


def run(case, rec):
    classes = []
    for li in case["labels"]:
        lab = label_of(LABELS[li])
        if lab not in classes:
            classes.append(lab)
    frames = build(case, classes)
    whole = make(case)
    parts = [make(case) for _ in classes]
    plain = make(case)  # the same stream, the labels replaced by one string for each class
    for lab in classes:
        rec.tag("label " + type(lab).__name__)
    for f, (period, dets) in enumerate(frames):
        D = [detection(pts, label=label, data=key) for _, label, pts, key in dets]
        held = list(whole.tracked_objects)
        prev = {id(o): o.last_detection for o in held}
        labels_before = {id(o): o.label for o in held}
        ret = call_update(whole, 0, D, period, **camera(case, f))
        merged_classes = set()
        for o in whole.tracked_objects:
            check(o.label == o.last_detection.label, "an object with label %r holds a detection with label %r", o.label, o.last_detection.label)
            if id(o) in prev:
                check(o.label == labels_before[id(o)], "an object's label changed")
                if o.last_detection is not prev[id(o)]:
                    merged_classes.add(classes.index(o.label))
        named = [detection(pts, label="class %d" % k, data=key) for k, _, pts, key in dets]
        ret_named = call_update(plain, 0, named, period, **camera(case, f))
        for x, y in ((whole.tracked_objects, plain.tracked_objects), (ret, ret_named)):
            x = sorted((o.last_detection.data, o.hit_counter, o.age) for o in x)
            y = sorted((o.last_detection.data, o.hit_counter, o.age) for o in y)
            check(x == y, "frame %d: (detection, hit counter, age) of the objects are %s, with plain strings for labels %s", f, x, y)
        if len(merged_classes) > 1:
            rec.nontrivial = True
            rec.tag("two labels matched in one update")
        for k, part in enumerate(parts):
            Dk = [detection(pts, label=label, data=key) for kk, label, pts, key in dets if kk == k]
            retk = call_update(part, 0, Dk, period, **camera(case, f))
            a = snapshot([o for o in whole.tracked_objects if o.label == classes[k]])
            b = snapshot(part.tracked_objects)
            check(set(a) == set(b), "frame %d: with label %r alone the objects hold detections %s, in the mix %s", f,
                  classes[k], sorted(b), sorted(a))
            for key in a:
                x, y = a[key], b[key]
                for name in ("hit_counter", "age"):
                    check(getattr(x, name) == getattr(y, name), "frame %d: %s is %r in the mix, %r alone", f, name, getattr(x, name), getattr(y, name))
                check((x.id is None) == (y.id is None), "frame %d: initialized only in one of the two", f)
                check(list(x.live_points) == list(y.live_points), "frame %d: live points differ", f)
                check([d.data for d in x.past_detections] == [d.data for d in y.past_detections], "frame %d: past detections differ", f)
                check_near(x.estimate, y.estimate, "frame %d: estimate in the mix" % f, 1e-9, 1e-9)
                check_near(x.estimate_velocity, y.estimate_velocity, "frame %d: velocity in the mix" % f, 1e-9, 1e-9)
            ra = sorted(o.last_detection.data for o in ret if o.label == classes[k])
            check(ra == sorted(o.last_detection.data for o in retk), "frame %d: the objects returned for label %r differ", f, classes[k])


def _reg(labels, dist):
    return {
        "hcm": 3, "delay": 0, "dist": dist, "labels": labels, "npts": 1, "thr": 20, "filter": ["opt"], "past": 2,
        "vary": False, "reid": None,
        "frames": [[1, [[0, 0, [0, 0]], [1, 0, [0, 0]]]], [1, [[1, 0, [1, 1]], [0, 0, [1, 1]]]], [1, [[0, 0, [1, 2]]]]],
    }


SUBS = [
    Sub("crowd", crowd_case, run_crowd, 100, 2500),
    Sub("isolation", case_, run, 3500, 80000, [
        _reg([3, 5], "euclidean"), _reg([0, 6], "euclidean"), _reg([3, 8], "euclidean"), _reg([10, 11], "euclidean"),
        _reg([3, 9], "euclidean"), _reg([7, 16], "euclidean"), _reg([10, 1], "cityblock"),
    ]),
]
