"""Pointwise distances: frobenius, mean euclidean, mean manhattan, keypoints voting, normalized mean euclidean."""
import math
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from ..core import Sub, check
from ..trk import detection
from ..util import laid_out, layouts

RULE = (
    "formulas: detections against real TrackedObjects (made by a Tracker with NoFilterFactory, so their estimates are "
    "known), 1-6 points (sometimes repeated up to 300 times) in 2 or 3 dimensions, integer and float, small and huge coordinates, compared with the "
    "documented formulas in plain python (math.fsum / hypot); voting: integer points (so that distances equal to the "
    "threshold occur), scores equal to the score threshold, objects that were matched several times; expected value by "
    "exact arithmetic. Non-trivial: more than one point, and coordinates (voting: votes) that differ between points."
)


def tracked(frames, scores=None, threshold=0.0):
    """A TrackedObject that saw these detections."""
    from norfair import Tracker
    from norfair.filter import NoFilterFactory

    t = Tracker(lambda d, o: 0.0, 1.0, hit_counter_max=50, initialization_delay=0, detection_threshold=threshold, filter_factory=NoFilterFactory())
    for k, pts in enumerate(frames):
        t.update([detection(pts, scores=None if scores is None else scores[k])])
    check(len(t.tracked_objects) == 1, "setup: one detection per frame gave %d objects", len(t.tracked_objects))
    return t.tracked_objects[0]


@st.composite
def formula_case(draw):
    n, dim = draw(st.integers(1, 6)), draw(st.sampled_from([2, 2, 2, 3]))
    kind = draw(st.sampled_from(["int", "eighth", "big", "any"]))
    one = {
        "int": st.integers(-30, 30), "eighth": st.integers(-400, 400).map(lambda v: v / 8),
        "big": st.integers(-10 ** 7, 10 ** 7), "any": st.floats(-1e4, 1e4, allow_nan=False),
    }[kind]
    pts = st.lists(st.lists(one, min_size=dim, max_size=dim), min_size=n, max_size=n)
    return {"rep": draw(st.sampled_from([1] * 7 + [10, 60, 300])), "det": draw(pts), "obj": draw(pts), "dtype": draw(st.sampled_from(["f", "f", "i"])) if kind in ("int", "big") else "f",
            "lay": draw(layouts()), "hide": draw(st.sampled_from([0, 0, 0, 1, 2])), "h": draw(st.integers(1, 3000)), "w": draw(st.integers(1, 3000))}


def rel(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(b))


def run_formula(case, rec):
    from norfair import Detection
    from norfair import distances as D

    many = case.get("rep", 1)
    case = dict(case, det=case["det"] * many, obj=case["obj"] * many)
    scores = None
    if case.get("hide"):
        # points that have not been detected well are not live, but have an estimate all the same
        scores = [[0.9 if (k % 3 == 1) == (case["hide"] == 1) else 0.1 for k in range(len(case["obj"]))]]
    obj = tracked([case["obj"]], scores, 0.5)
    if not all(obj.live_points):
        rec.tag("some points are not live" if any(obj.live_points) else "no live point")
    det = Detection(laid_out(np.array(case["det"], dtype=int if case["dtype"] == "i" else float), case.get("lay")))
    if case.get("lay"):
        rec.tag(case["lay"])
    keep = det.points.copy(), obj.estimate.copy()
    diffs = [[x - y for x, y in zip(p, q)] for p, q in zip(case["det"], case["obj"])]
    n = len(diffs)
    exp = {
        "frobenius": math.sqrt(math.fsum(v * v for p in diffs for v in p)),
        "mean_euclidean": math.fsum(math.sqrt(math.fsum(v * v for v in p)) for p in diffs) / n,
        "mean_manhattan": math.fsum(abs(v) for p in diffs for v in p) / n,
    }
    for name, want in exp.items():
        got = float(getattr(D, name)(det, obj))
        check(rel(got, want), "%s is %r, expected %r", name, got, want)
        back = float(getattr(D, name)(Detection(np.array(case["obj"], float)), tracked([case["det"]])))
        check(rel(back, want), "%s is not symmetric: %r and %r", name, back, want)
        m = D.get_distance_by_name(name).get_distances([obj, obj], [det])
        check(np.shape(m) == (1, 2) and all(abs(float(v) - want) <= 1e-5 * max(1.0, want) for v in np.ravel(m)),
              "get_distance_by_name(%r) gives %s, expected %r", name, np.asarray(m).tolist(), want)
    if len(case["det"][0]) == 2:
        h, w = case["h"], case["w"]
        want = math.fsum(math.hypot(p[0] / w, p[1] / h) for p in diffs) / n
        fn = D.create_normalized_mean_euclidean_distance(height=h, width=w)
        other = D.create_normalized_mean_euclidean_distance(h + 7, w + 3)
        other(det, obj)
        got = float(fn(det, obj))
        check(rel(got, want), "normalized mean euclidean (height %d, width %d) is %r, expected %r", h, w, got, want)
        got = float(D.create_normalized_mean_euclidean_distance(h, w)(det, obj))
        check(rel(got, want), "normalized mean euclidean (positional %d, %d) is %r, expected %r", h, w, got, want)
    check(np.array_equal(det.points, keep[0]) and np.array_equal(obj.estimate, keep[1]), "a distance changed its inputs")
    rec.tag("dim%d" % len(diffs[0]), "dtype " + case["dtype"])
    rec.nontrivial = n > 1 and len({tuple(p) for p in diffs}) > 1


@st.composite
def vote_case(draw):
    n, dim = draw(st.integers(1, 6)), draw(st.sampled_from([2, 2, 3]))
    one = st.integers(-6, 6)
    pts = st.lists(st.lists(one, min_size=dim, max_size=dim), min_size=n, max_size=n)
    sc = st.lists(st.integers(0, 4), min_size=n, max_size=n)
    return {"rep": draw(st.sampled_from([1] * 7 + [10, 60, 300])), "det": draw(pts), "dsc": draw(sc), "seen": draw(st.lists(st.tuples(pts, sc).map(list), min_size=1, max_size=3)),
            "kthr": draw(st.sampled_from([0, 1, 2, 5, 5, 5, 10, 3, 4, 13, 100])), "sthr": draw(st.integers(-1, 4)), "lay": draw(layouts())}


def run_vote(case, rec):
    from norfair import Detection
    from norfair import distances as D

    many = case.get("rep", 1)
    case = dict(case, det=case["det"] * many, dsc=case["dsc"] * many, seen=[[p * many, c * many] for p, c in case["seen"]])
    # hit every point at every frame so that the estimate is the last detection
    obj = tracked([s[0] for s in case["seen"]])
    obj.last_detection.scores = np.array(case["seen"][-1][1]) / 4
    det = detection(case["det"], scores=[s / 4 for s in case["dsc"]])
    det = Detection(laid_out(det.points, case.get("lay")), laid_out(det.scores, case.get("lay")))
    fn = D.create_keypoints_voting_distance(case["kthr"], case["sthr"] / 4)
    D.create_keypoints_voting_distance(case["kthr"] + 100, -1.0)(det, obj)
    last = case["seen"][-1][0]
    votes = []
    for p, q, a, b in zip(case["det"], last, case["dsc"], case["seen"][-1][1]):
        d2 = sum((x - y) ** 2 for x, y in zip(p, q))
        votes.append(d2 < case["kthr"] ** 2 and a > case["sthr"] and b > case["sthr"])
        if d2 == case["kthr"] ** 2:
            rec.tag("distance equal to the threshold")
        if case["sthr"] in (a, b):
            rec.tag("score equal to the threshold")
    want = Fraction(1, 1 + sum(votes))
    got = float(fn(det, obj))
    check(abs(got - float(want)) < 1e-12, "voting distance is %r, expected %s", got, want)
    rec.tag("votes=%s" % (sum(votes) if sum(votes) < 7 else "many"))
    rec.nontrivial = len(set(votes)) > 1


SUBS = [Sub("formulas", formula_case, run_formula, 4000, 100000), Sub("voting", vote_case, run_vote, 4000, 100000)]
