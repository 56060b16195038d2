"""Camera motion: tracking relative detections with the camera's transformations equals tracking the scene."""
import numpy as np
from hypothesis import strategies as st

from ..core import Discard, Sub, check, fail
from ..trk import call_update, counters, crowd, crowds, detection, filter_factory
from ..util import check_near, jitter, laid_out, layouts

RULE = (
    "Metamorphic: a generated scene is tracked once in scene coordinates and once as seen by a moving camera (generated "
    "translations or homographies per frame, detections given in frame coordinates, sometimes None), with distances that "
    "do not depend on the camera. Objects, ids, counters, absolute estimates and velocities must agree and the relative "
    "estimate must be the transformed absolute one. Non-trivial: the camera moved while an object was matched across two "
    "different transformations. Cases with near-ties between distances are discarded."
)
ASSUMPTIONS = ["transformations are passed on every update", "well conditioned homographies"]


@st.composite
def case_(draw):
    kind = draw(st.sampled_from(["translation", "translation", "homography", "affine"]))
    hcm, delay = draw(counters(6))
    npts = draw(st.integers(1, 3))
    cam = st.lists(st.integers(-40, 40), min_size=8, max_size=8)
    det = st.lists(st.integers(0, 30), min_size=2 * npts, max_size=2 * npts)
    frames = draw(
        st.lists(st.tuples(st.sampled_from([0, 0, 0, 0, 0, 1, 2, 3]), cam, st.lists(det, max_size=4)).map(list), min_size=2, max_size=8)
    )
    dist = draw(st.sampled_from(["euclidean", "mean_euclidean", "frobenius", "abs"])) if kind == "translation" else "abs"
    return {
        "kind": kind, "hcm": hcm, "delay": delay, "npts": npts, "frames": frames, "dist": dist, "thr": draw(st.integers(2, 40)),
        "filter": draw(st.sampled_from([["opt"], ["opt"], ["no"], ["fpy"]])), "twin": draw(st.booleans()),
        "reid": draw(st.one_of(st.none(), st.none(), st.integers(0, 4))), "past": draw(st.integers(0, 3)),
        "scores": draw(st.booleans()), "still": draw(st.booleans()),
        "shift": draw(st.one_of(st.none(), st.tuples(st.integers(-50, 50), st.integers(-50, 50)).map(list))),
    }


@st.composite
def crowd_case(draw):
    c = draw(case_())
    c["frames"] = []
    c["crowd"] = draw(crowds([[1, 300], [2, 200], [3, 120], [12, 30], [40, 10], [120, 4]]))
    return c


def run_crowd(case, rec):
    rng = np.random.RandomState(case["crowd"]["seed"])
    frames = []
    for things in crowd(case["crowd"]):
        frames.append([0, [int(v) for v in rng.randint(-40, 41, 8)], [[(x, y)[k % 2] + k for k in range(2 * case["npts"])] for _, x, y in things]])
    if case["kind"] == "homography" and case["crowd"]["n"] > 3:
        # the whole crowd in front of the camera
        for fr in frames:
            fr[1][6:] = [v // 8 for v in fr[1][6:]]
    run(dict(case, frames=frames), rec)


def transform(kind, c, shift=(0, 0)):
    """The camera of a scene whose origin is at -shift."""
    from norfair.camera_motion import HomographyTransformation, TranslationTransformation

    if kind == "translation":
        mx, my = c[0] * 0.75 - shift[0], c[1] * 0.75 - shift[1]
        return TranslationTransformation(np.array([mx, my])), np.array([[1, 0, mx], [0, 1, my], [0, 0, 1.0]])
    a = [v / 40 for v in c]
    M = np.array([[1 + 0.3 * a[0], 0.3 * a[1], 20 * a[2]], [0.3 * a[3], 1 + 0.3 * a[4], 20 * a[5]], [0, 0, 1.0]])
    if kind == "homography":
        M[2, 0], M[2, 1] = 0.002 * a[6], 0.002 * a[7]
    M = M @ np.array([[1, 0, -shift[0]], [0, 1, -shift[1]], [0, 0, 1.0]])
    return HomographyTransformation(M), M


def project(M, pts):
    """Independent application of a homography, point by point."""
    out = []
    for x, y in pts:
        w = M[2][0] * x + M[2][1] * y + M[2][2]
        out.append([(M[0][0] * x + M[0][1] * y + M[0][2]) / w, (M[1][0] * x + M[1][1] * y + M[1][2]) / w])
    return np.array(out)


def run(case, rec):
    from norfair import Tracker

    npts = case["npts"]
    thr = case["thr"] + 0.0137
    record = []

    def dist_abs(det, obj):
        d = float(np.sqrt(((det.absolute_points - obj.get_estimate(absolute=True)) ** 2).sum()))
        return d

    def dist_world(det, obj):
        d = float(np.sqrt(((det.points - obj.estimate) ** 2).sum()))
        record.append(d)
        return d

    def reid_abs(new, old):
        return float(np.sqrt(((new.get_estimate(absolute=True) - old.get_estimate(absolute=True)) ** 2).sum()))

    def reid_world(new, old):
        d = float(np.sqrt(((new.estimate - old.estimate) ** 2).sum()))
        record.append(d)
        return d

    def make(d, reid):
        kw = {}
        if case["reid"] is not None:
            kw = dict(reid_distance_function=reid, reid_distance_threshold=12.51, reid_hit_counter_max=case["reid"])
        return Tracker(d, thr, hit_counter_max=case["hcm"], initialization_delay=case["delay"], past_detections_length=case["past"],
                       filter_factory=filter_factory(case["filter"]), **kw)

    names = {"euclidean": 1.0, "mean_euclidean": npts, "frobenius": 1.0, "abs": 1.0}

    def world_distance(det, obj):
        if case["dist"] == "mean_euclidean":
            d = float(np.linalg.norm(det.points - obj.estimate, axis=1).mean())
            record.append(d)
            return d
        return dist_world(det, obj)

    assert case["dist"] in names
    world = make(world_distance, reid_world)
    cam = make(dist_abs if case["dist"] == "abs" else case["dist"], reid_abs)
    twin = make(dist_abs if case["dist"] == "abs" else case["dist"], reid_abs) if case["twin"] else None
    rec.tag(case["kind"], case["dist"], "filter " + case["filter"][0])
    last_M = {}
    keep = []
    for f, (mode, c, raw) in enumerate(case["frames"]):
        cam_c = [0] * 8 if (case["still"] and f == 0) else c
        T, M = transform(case["kind"], cam_c)
        D, E = [], []
        if mode == 0:
            for i, coords in enumerate(raw):
                scene = np.array([v + 0.4 * jitter(f, i, k) for k, v in enumerate(coords)]).reshape(npts, 2)
                sc = [((i + k + f) % 3) / 2 for k in range(npts)] if case["scores"] else None
                D.append(detection(scene, sc, data=(f, i)))
                E.append(detection(project(M, scene), sc, data=(f, i)))
        record.clear()
        before = {o.last_detection.data: o for o in cam.tracked_objects}
        holder = {id(o): o.last_detection.data for o in before.values()}
        keep.append(list(before.values()))
        rw = call_update(world, mode, D, 1)
        vals = sorted([v for v in record if v < max(thr, 12.51) + 1] + [thr, 12.51])
        if any(b - a < 1e-5 for a, b in zip(vals, vals[1:])):
            raise Discard()
        rel_before = [e.points.copy() for e in E]
        rc = call_update(cam, mode, E, 1, coord_transformations=T)
        for e, r in zip(E, rel_before):
            check(np.array_equal(e.points, r), "frame %d: the points of a detection were changed", f)
        both = [(world, cam, rw, rc, np.zeros(2))]
        if twin is not None:
            # the same detections for a second tracker, whose scene may have another origin
            shift = np.array(case.get("shift") or [0, 0], dtype=float)
            if shift.any():
                rec.tag("twin with another origin")
            rt = call_update(twin, mode, E, 1, coord_transformations=transform(case["kind"], cam_c, shift)[0] if shift.any() else T)
            both.append((world, twin, rw, rt, shift))
        for w, k, a, b, moved in both:
            x = {o.last_detection.data: o for o in w.tracked_objects}
            y = {o.last_detection.data: o for o in k.tracked_objects}
            check(set(x) == set(y) and len(y) == len(k.tracked_objects),
                  "frame %d: objects hold detections %s in the scene, %s seen from the camera%s", f, sorted(x), sorted(y),
                  " (second tracker fed with the same detections)" if k is twin else "")
            check([o.last_detection.data for o in a] == [o.last_detection.data for o in b] or
                  sorted(o.last_detection.data for o in a) == sorted(o.last_detection.data for o in b), "frame %d: the returned objects differ", f)
            for key, o in x.items():
                p = y[key]
                check(o.id == p.id and o.hit_counter == p.hit_counter and o.age == p.age and list(o.live_points) == list(p.live_points),
                      "frame %d: id, counters or live points differ from the scene's", f)
                check([d.data for d in o.past_detections] == [d.data for d in p.past_detections], "frame %d: past detections differ", f)
                pa = np.asarray(p.get_estimate(absolute=True)) - moved
                check_near(pa, o.estimate, "frame %d: absolute estimate" % f, 1e-6, 1e-6)
                check_near(p.estimate_velocity, o.estimate_velocity, "frame %d: absolute velocity" % f, 1e-6, 1e-6)
                check_near(p.estimate, project(M, pa), "frame %d: relative estimate" % f, 1e-6, 1e-6)
                check_near(p.get_estimate(), p.estimate, "frame %d: get_estimate()" % f, 0, 0)
                check_near(p.get_estimate(absolute=False), p.estimate, "frame %d: get_estimate(absolute=False)" % f, 0, 0)
                for abs_arg in (False, True):
                    check(np.asarray(p.get_estimate(abs_arg)).shape == (npts, 2), "wrong shape of the estimate")
        for p in cam.tracked_objects:
            if id(p) in holder and holder[id(p)] != p.last_detection.data:
                if f and not np.allclose(M, last_M["M"]):
                    rec.nontrivial = True
                    rec.tag("matched across a camera movement")
        last_M["M"] = M
        if mode and cam.tracked_objects:
            rec.tag("no detections, mode %d" % mode)


@st.composite
def none_case(draw):
    return {
        "frames": draw(st.lists(st.tuples(st.integers(0, 20), st.integers(0, 20)).map(list), min_size=1, max_size=4)),
        "npts": draw(st.integers(1, 3)), "filter": draw(st.sampled_from([["opt"], ["no"], ["fpy"]])),
    }


def run_none(case, rec):
    """Without transformations absolute coordinates are refused, and estimates are plain."""
    from norfair import Tracker

    t = Tracker(lambda d, o: 0.25, 1.0, initialization_delay=0, filter_factory=filter_factory(case["filter"]))
    rec.nontrivial = len(case["frames"]) > 1
    for f, (x, y) in enumerate(case["frames"]):
        r = t.update([detection([[x + k, y + 2 * k] for k in range(case["npts"])])])
        o = r[0]
        try:
            got = o.get_estimate(absolute=True)
        except ValueError:
            pass
        else:
            fail("get_estimate(absolute=True) returned %r without transformations" % (got,))
        check_near(o.get_estimate(), o.estimate, "get_estimate()", 0, 0)
        if f == 0:
            check_near(o.estimate, [[x + k, y + 2 * k] for k in range(case["npts"])], "estimate", 0, 0)


@st.composite
def points_case(draw):
    npts = draw(st.integers(1, 4))
    point = st.tuples(st.one_of(st.integers(-30, 400), st.integers(-3000, 3000)), st.one_of(st.integers(-30, 300), st.integers(-3000, 3000)), st.integers(0, 5)).map(list)
    return {"kind": draw(st.sampled_from(["none", "translation", "homography", "affine"])), "lay": draw(layouts()), "int": draw(st.booleans()), "twice": draw(st.booleans()),
            "frames": draw(st.lists(st.tuples(st.lists(st.integers(-40, 40), min_size=8, max_size=8), st.lists(st.lists(point, min_size=npts, max_size=npts), max_size=3)).map(list), min_size=1, max_size=5)),
            "filter": draw(st.sampled_from([["opt"], ["no"], ["fpy"]]))}


def run_points(case, rec):
    """A detection keeps the absolute points its frame's transformation gives, also of points without coordinates."""
    from norfair import Detection, Tracker

    ts = [Tracker(lambda d, o: 0.25 if d.data == o.last_detection.data else 9.0, 1.0, initialization_delay=0, filter_factory=filter_factory(case["filter"])) for _ in range(2)]
    kept = []
    for f, (c, raw) in enumerate(case["frames"]):
        T, M = (None, np.eye(3)) if case["kind"] == "none" else transform(case["kind"], [v // 4 if k > 5 else v for k, v in enumerate(c)])
        dets, want = [], []
        for i, points in enumerate(raw):
            pts = np.array([p[:2] for p in points], float)
            sc = np.array([0.0 if p[2] < 2 else 1.0 for p in points])
            unseen = np.array([p[2] == 0 for p in points])
            inverse = np.linalg.inv(M)
            if any(abs(inverse[2] @ [x, y, 1]) < 0.1 for x, y in pts):
                raise Discard()
            pts = pts + np.where(pts > 0, 0.25, 0)
            if case["int"] and not unseen.any():
                pts = pts.astype(int)
            exact = project(inverse, pts)
            if pts.dtype != int:
                pts[unseen] = np.nan
                exact[unseen] = np.nan
                if unseen.any():
                    rec.tag("points without coordinates")
            dets.append(Detection(laid_out(pts, case["lay"]), scores=sc, data=i))
            want.append((exact, np.array(pts)))
        for t in ts[:1 + case["twice"]]:
            call_update(t, 0, dets, 1, **({} if T is None else {"coord_transformations": T}))
        kept += zip(dets, want)
        for d, (exact, own) in kept:
            check(np.array_equal(d.points, own, equal_nan=True), "frame %d: points %s became %s", f, own, d.points)
            got = np.asarray(d.absolute_points)
            check(got.shape == exact.shape and np.allclose(got, exact, 1e-6, 1e-6, equal_nan=True), "frame %d: absolute points of a detection are %s, expected %s", f, got.tolist(), exact.tolist())
        for o in ts[0].tracked_objects:
            check(np.isfinite(o.estimate).all(), "frame %d: the estimate is %s", f, o.estimate.tolist())
    rec.tag(case["kind"])
    rec.nontrivial = case["kind"] != "none" and len(kept) > 1


_cam = [4, 8, 0, 0, 0, 0, 0, 0]
REG = [
    {"kind": "translation", "hcm": 4, "delay": 0, "npts": 1, "dist": "euclidean", "thr": 20, "filter": ["opt"], "twin": True, "reid": None, "past": 2,
     "scores": False, "still": True,
     "frames": [[0, _cam, [[3, 4]]], [2, _cam, []], [1, _cam, []], [0, [20, 8, 0, 0, 0, 0, 0, 0], [[3, 5]]], [0, [-20, 8, 0, 0, 0, 0, 0, 0], [[3, 6], [25, 25]]]]},
]
SUBS = [Sub("points", points_case, run_points, 600, 10000), Sub("crowd", crowd_case, run_crowd, 100, 2500), Sub("camera", case_, run, 3500, 80000, REG), Sub("absolute", none_case, run_none, 300, 3000)]
