"""Custom filters, distances and coordinate transformations are used by their contract."""
import numpy as np
from hypothesis import strategies as st

from ..core import Discard, Sub, check
from ..trk import FILTERS, call_update, detection, effective_delay, filter_factory
from ..util import check_equal_arrays, check_near

RULE = (
    "plugins: trackers with a recording filter factory, a recording distance function and a custom affine coordinate transformation are fed generated "
    "histories; the record must be one filter per new object from the absolute points of its detection, one predict per update for every object kept, before the distances are "
    "asked for, one update per match with the detection's absolute coordinates and a matrix selecting the detected coordinates, no other calls, and estimates / "
    "velocities must be the halves of the filter's state. Non-trivial: a filter had at least two updates, one of them masked, with a predict in between. "
    "equivalent: the same history tracked with a distance by name and as a function gives the same objects. Non-trivial: two objects were matched."
)


class Recorder:
    def __init__(self, log, points, gain):
        self.log = log
        self.n = points.size
        self.x = np.zeros((2 * self.n, 1))
        self.x[: self.n, 0] = np.asarray(points, float).ravel()
        self.gain = gain
        self.calls = []

    def predict(self):
        self.calls.append(("predict",))
        self.log.append(("predict", self))
        self.x[: self.n] += self.x[self.n:]
        self.left = self.x.copy()

    def update(self, z, R=None, H=None):
        z = np.array(z, float)
        H = None if H is None else np.array(H, float)
        self.calls.append(("update", z, R, H))
        self.log.append(("update", self))
        sel = np.ones(self.n) if H is None else np.diagonal(H[:, : self.n])
        err = (z.ravel() - self.x[: self.n, 0]) * sel
        self.x[: self.n, 0] += self.gain * err
        self.x[self.n:, 0] += self.gain / 4 * err


@st.composite
def plug_case(draw):
    hcm = draw(st.integers(1, 5))
    npts, dim = draw(st.integers(1, 3)), draw(st.sampled_from([2, 2, 3]))
    ncells = draw(st.integers(1, 3))
    det = st.tuples(
        st.integers(0, ncells - 1), st.lists(st.integers(-4, 4), min_size=npts * dim, max_size=npts * dim),
        st.one_of(st.none(), st.lists(st.integers(0, 3), min_size=npts, max_size=npts)),
    ).map(list)
    fr = st.tuples(st.sampled_from([0, 0, 0, 0, 1, 3]), st.integers(1, 3), st.lists(det, max_size=ncells + 1),
                   st.lists(st.integers(-3, 3), min_size=dim, max_size=dim)).map(list)
    return {
        "hcm": hcm, "delay": draw(st.one_of(st.none(), st.integers(0, hcm - 1))), "npts": npts, "dim": dim,
        "frames": draw(st.lists(fr, min_size=1, max_size=10)), "gain": draw(st.sampled_from([0.25, 0.5, 1.0])),
        "transform": draw(st.sampled_from([None, "affine", "affine", "warp"])), "dthr": draw(st.integers(0, 2)) / 2,
        "duck": draw(st.booleans()), "reid": draw(st.sampled_from([None, None, 1, 3, 6])), "cells": ncells,
        "rep": draw(st.sampled_from([1] * 16 + [30])), "crowd": draw(st.sampled_from([1] * 16 + [40])),
    }


def run_plug(case, rec):
    from norfair import Tracker
    from norfair.camera_motion import CoordinatesTransformation
    from norfair.filter import FilterFactory

    npts, dim, hcm = case["npts"], case["dim"], case["hcm"]
    if case.get("rep", 1) * case.get("crowd", 1) > 1:
        # again and again, or many times side by side
        frames = [[m, p, [[cell + case["cells"] * k, off, sc] for k in range(case["crowd"]) for cell, off, sc in raw], shift] for m, p, raw, shift in case["frames"]]
        case = dict(case, frames=frames * (case["rep"] if case["crowd"] == 1 else 1))
        rec.tag("long or crowded")
    log = []
    made = []

    class Factory(FilterFactory):
        def create_filter(self, initial_detection):
            pts = np.array(initial_detection, float)
            f = Recorder(log, pts, case["gain"])
            f.initial = pts
            made.append(f)
            log.append(("create", f))
            return f

    class Affine(object if case["duck"] else CoordinatesTransformation):
        """Not one of norfair's: relative = 2 * absolute + shift, or a cubic warp."""

        def __init__(self, shift):
            self.shift = np.array(shift, float)

        def abs_to_rel(self, points):
            points = np.asarray(points, float)
            if case["transform"] == "warp":
                points = np.cbrt(points)
            return 2 * points + self.shift

        def rel_to_abs(self, points):
            points = (np.asarray(points, float) - self.shift) / 2
            return points ** 3 if case["transform"] == "warp" else points

    def pair(det, obj):
        return float(np.abs(np.asarray(det.points).mean(axis=0) - np.asarray(obj.estimate).mean(axis=0)).max())

    asked = []

    def func(det, obj):
        log.append(("distance", None))
        asked.append(([obj], [det]))
        return pair(det, obj)

    kw = {}
    if case["reid"] is not None:
        def reid(new, old):
            log.append(("reid", None))
            return float(abs(np.asarray(new.last_detection.points).mean() - np.asarray(old.last_detection.points).mean()))

        kw = dict(reid_distance_function=reid, reid_distance_threshold=150.0, reid_hit_counter_max=case["reid"])
        rec.tag("reid")
    t = Tracker(
        func, 30.0, hit_counter_max=hcm, initialization_delay=case["delay"],
        filter_factory=Factory(), detection_threshold=case["dthr"], **kw
    )
    counted = {}  # filter -> number of recorded calls seen so far
    last_tr = None
    rich = False
    for fi, (mode, period, raw, shift) in enumerate(case["frames"]):
        period = min(period, hcm)
        tr = None if case["transform"] is None else Affine(shift)
        dets = []
        if mode == 0:
            for cell, off, sc in raw:
                pts = np.array(off, float).reshape(npts, dim) / 4 + 100.0 * (cell + 1)
                dets.append(detection(pts, None if sc is None else [s / 2 for s in sc]))
        before = list(t.tracked_objects)
        prev_last = {id(o): o.last_detection for o in before}
        del log[:], asked[:], made[:]
        counted = {id(o.filter): len(o.filter.calls) for o in before}
        kept = [o for o in before if (o.hit_counter >= 0 if case["reid"] is None else o.reid_hit_counter is None or o.reid_hit_counter >= 0)]
        alive = [o for o in kept if o.hit_counter >= 0]
        kept_filters = [o.filter for o in kept]
        if len(alive) < len(kept):
            rec.tag("hidden")
        call_update(t, mode, dets, period, **({} if tr is None else {"coord_transformations": tr}))
        if tr is not None:
            last_tr = tr
        after = list(t.tracked_objects)
        kinds = [k for k, _ in log]
        # predictions: once for every object that is kept, before any distance or measurement
        preds = [f for k, f in log if k == "predict"]
        check(len(preds) == len(kept) and {id(f) for f in preds} == {id(f) for f in kept_filters},
              "frame %d: predict was called %d times for %d objects", fi, len(preds), len(kept))
        if "predict" in kinds:
            tail = kinds[len(kinds) - kinds[::-1].index("predict"):]
            check(len(tail) == len(kinds) - len(preds), "frame %d: calls in the order %s", fi, kinds)
        # distances were asked about the things they are documented to be asked about
        for objects, candidates in asked:
            check(all(any(c is d for d in dets) for c in candidates), "frame %d: a distance was asked about something that is no detection of the frame", fi)
            check(all(any(o is k for k in alive) for o in objects), "frame %d: a distance was asked about an object that is not alive", fi)
        # measurements: once for every match
        ups = [f for k, f in log if k == "update"]
        matched = [o for o in after if id(o) in prev_last and o.last_detection is not prev_last[id(o)]]
        check(len(ups) == len(matched) and {id(f) for f in ups} == {id(o.filter) for o in matched},
              "frame %d: update was called %d times for %d matches", fi, len(ups), len(matched))
        for o in matched:
            d = o.last_detection
            if id(o.filter) not in counted:
                check(False, "frame %d: the filter of a matched object was not there before", fi)
            if not any(o.filter is f for o2, f in zip(kept, kept_filters) if o2 is o):
                rec.tag("merged")
            calls = o.filter.calls[counted[id(o.filter)]:]
            check([c[0] for c in calls] == ["predict", "update"], "frame %d: calls %s", fi, [c[0] for c in calls])
            _, z, R, H = calls[1]
            rel = np.asarray(d.points, float)
            expected = rel if tr is None else tr.rel_to_abs(rel)
            check(z.shape == (npts * dim, 1), "frame %d: measurement of shape %s", fi, z.shape)
            check_near(z.ravel(), expected.ravel(), "frame %d: measurement" % fi, 1e-12, 1e-12)
            seen = np.ones(npts, bool) if d.scores is None else np.asarray(d.scores) > case["dthr"]
            check(H is not None, "frame %d: no measurement matrix", fi)
            want = np.hstack([np.diag(np.repeat(seen, dim).astype(float)), np.zeros((npts * dim, npts * dim))])
            check_equal_arrays(H, want, "frame %d: measurement matrix" % fi)
            check(R is None, "frame %d: measurement noise %r", fi, R)
            if not seen.all() and sum(c[0] == "update" for c in o.filter.calls) >= 2:
                rich = True
        # new objects
        new = [o for o in after if id(o) not in prev_last]
        check(len(made) == len(new) and {id(f) for f in made} == {id(o.filter) for o in new}, "frame %d: %d filters were made for %d new objects", fi, len(made), len(new))
        for o in new:
            rel = np.asarray(o.last_detection.points, float)
            check(o.filter.initial.shape == (npts, dim), "frame %d: initial points of shape %s", fi, o.filter.initial.shape)
            check_near(o.filter.initial, rel if tr is None else tr.rel_to_abs(rel), "frame %d: initial points" % fi, 1e-12, 1e-12)
            check(not o.filter.calls, "frame %d: a new filter was used", fi)
        for o in after:
            x = o.filter.x
            if id(o) in prev_last and o.last_detection is prev_last[id(o)]:
                # the position of an object that was not matched is the filter's prediction
                check(np.array_equal(x, o.filter.left), "frame %d: the state of the filter of an unmatched object was changed", fi)
            check(x.shape == (2 * npts * dim, 1), "frame %d: the state has shape %s", fi, x.shape)
            pos = x[: npts * dim, 0].reshape(npts, dim)
            check_near(np.asarray(o.estimate), pos if last_tr is None else last_tr.abs_to_rel(pos), "frame %d: estimate" % fi, 1e-12, 1e-12)
            check_near(np.asarray(o.estimate_velocity), x[npts * dim:, 0].reshape(npts, dim), "frame %d: velocity" % fi, 1e-12, 1e-12)
    rec.tag("transform %s" % case["transform"])
    rec.nontrivial = rich


@st.composite
def equiv_case(draw):
    boxes = draw(st.booleans())
    hcm = draw(st.integers(1, 6))
    ndet = draw(st.integers(1, 4))
    npts = 2 if boxes else draw(st.integers(1, 3))
    det = st.lists(st.integers(0, 60), min_size=2 * npts, max_size=2 * npts)
    return {
        "boxes": boxes, "npts": npts, "hcm": hcm, "delay": draw(st.one_of(st.none(), st.integers(0, hcm - 1))), "filter": draw(FILTERS),
        "frames": draw(st.lists(st.lists(st.tuples(det, st.integers(0, 2)).map(list), max_size=ndet), min_size=2, max_size=8)),
        "name": draw(st.sampled_from(["iou", "iou_opt"] if boxes else ["frobenius", "mean_euclidean", "mean_manhattan", "euclidean", "cityblock", "chebyshev", "sqeuclidean"])),
        "thr": draw(st.sampled_from([0.5, 0.9]) if boxes else st.sampled_from([10.0, 25.0, 60.0])), "reid": draw(st.sampled_from([None, None, 1, 4])),
        "rep": draw(st.sampled_from([1] * 16 + [25])), "crowd": draw(st.sampled_from([1] * 16 + [40])),
    }


def run_equiv(case, rec):
    from norfair import Tracker, distances as D

    name, npts = case["name"], case["npts"]
    if case.get("rep", 1) * case.get("crowd", 1) > 1:
        frames = [[[[v + 211 * k for v in c], lab] for k in range(case["crowd"]) for c, lab in raw] for raw in case["frames"]]
        case = dict(case, frames=frames * (case["rep"] if case["crowd"] == 1 else 1))
        rec.tag("long or crowded")
    scalar = {"frobenius": D.frobenius, "mean_euclidean": D.mean_euclidean, "mean_manhattan": D.mean_manhattan}
    metric = {"euclidean": lambda v: np.sqrt((v ** 2).sum()), "cityblock": lambda v: np.abs(v).sum(), "chebyshev": lambda v: np.abs(v).max(), "sqeuclidean": lambda v: (v ** 2).sum()}
    if name in scalar:
        form = scalar[name]
    elif name in metric:
        def form(det, obj):
            return float(metric[name](np.asarray(det.points - obj.estimate, float)))
    else:
        def form(det, obj):
            return float(D.iou(np.asarray(det.points, float).reshape(1, -1), np.asarray(obj.estimate, float).reshape(1, -1))[0, 0])
    asked = []

    def noting(det, obj):
        asked.append(form(det, obj))
        return asked[-1]

    forms = [name, noting]
    trackers = []
    near_tie = False
    for f in forms:
        kw = {}
        if case["reid"] is not None:
            kw = dict(reid_distance_function=lambda a, b: float(np.abs(a.estimate - b.estimate).max()))
            kw.update(reid_distance_threshold=case["thr"], reid_hit_counter_max=case["reid"])
            rec.tag("reid")
        trackers.append(Tracker(f, case["thr"], hit_counter_max=case["hcm"], initialization_delay=case["delay"], filter_factory=filter_factory(case["filter"]), **kw))
    matched = 0
    for fi, raw in enumerate(case["frames"]):
        views = []
        for k, t in enumerate(trackers):
            dets = []
            for i, (c, lab) in enumerate(raw):
                pts = np.array(c, float).reshape(npts, 2)
                if case["boxes"]:
                    pts = np.array([pts.min(axis=0), pts.min(axis=0) + np.abs(pts[1] - pts[0]) + 20])
                pts = pts + np.array([0.01 * i, 0.003 * fi * (i + 1)])
                dets.append(detection(pts, data=(fi, i), label=[None, None, "a"][lab]))
            ret = t.update(dets)
            views.append(([o.id for o in ret], [(o.id, o.initializing_id, o.last_detection.data, o.hit_counter, o.age) for o in t.tracked_objects],
                          [np.array(o.estimate, float) for o in t.tracked_objects]))
            if k == 0:
                matched += sum(o.age > 0 and o.last_detection.data[0] == fi for o in t.tracked_objects)
        # both ways of computing a distance may round differently, which may decide between distances that are equal but for rounding
        close = sorted(d for d in asked + [case["thr"]] if d <= case["thr"] * (1 + 1e-9))
        near_tie = near_tie or any(b - a <= 1e-9 * max(1.0, b) for a, b in zip(close, close[1:]))
        del asked[:]
        for k, v in enumerate(views[1:]):
            if near_tie and v[:2] != views[0][:2]:
                raise Discard("near-tie")
            check(v[:2] == views[0][:2], "frame %d: %s given by name gives %s, as %r gives %s", fi, name, views[0][:2], forms[k + 1], v[:2])
            for a, b in zip(v[2], views[0][2]):
                check_near(a, b, "frame %d: estimate" % fi, 1e-9, 1e-9)
    rec.tag(name)
    rec.nontrivial = matched >= 2


SUBS = [Sub("plugins", plug_case, run_plug, 2500, 50000), Sub("equivalent", equiv_case, run_equiv, 2000, 40000)]
