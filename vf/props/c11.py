"""Equivariance: units, origin, axes, point order, detection order and far away objects do not matter."""
import numpy as np
from hypothesis import strategies as st

from ..core import Discard, Sub, check
from ..trk import call_update, counters, crowd, crowds, detection, filter_factory
from ..util import check_near, jitter
from .c01 import formula

RULE = (
    "Metamorphic: a generated scene is tracked, then tracked again after a change of unit (powers of two and others), "
    "mirroring, shift of the origin, swap of axes, permutation of the points inside every detection, permutation of the "
    "detections inside every frame, or after adding objects far away; the same tracks must come out, with estimates and "
    "velocities changed accordingly. Non-trivial: some object was matched at least twice. Near-ties are discarded."
)

DISTS = ["euclidean", "mean_euclidean", "mean_manhattan", "cityblock", "chebyshev", "frobenius", "iou"]
CHANGES = ["scale", "mirror", "shift", "swap", "points", "order", "far", "combo"]


@st.composite
def case_(draw):
    hcm, delay = draw(counters(6))
    dist = draw(st.sampled_from(DISTS))
    npts = 2 if dist == "iou" else draw(st.integers(1, 3))
    det = st.lists(st.integers(0, 24), min_size=2 * npts, max_size=2 * npts)
    return {
        "hcm": hcm, "delay": delay, "dist": dist, "npts": npts, "thr": draw(st.integers(2, 30)),
        "frames": draw(st.lists(st.tuples(st.integers(1, 2), st.lists(det, max_size=5)).map(list), min_size=2, max_size=8)),
        "change": draw(st.sampled_from(CHANGES)), "k": draw(st.integers(1, 50)), "a": draw(st.lists(st.integers(-300, 300), min_size=2, max_size=2)),
        "filter": draw(st.sampled_from([["opt"], ["opt"], ["no"], ["fpy"]])), "scores": draw(st.booleans()),
        "afar": draw(st.sampled_from([1, 1, 1, 300])),
    }


@st.composite
def crowd_case(draw):
    c = draw(case_())
    c["frames"] = []
    c["crowd"] = draw(crowds([[1, 300], [2, 200], [3, 120], [12, 30], [40, 10], [120, 4]]))
    return c


def run_crowd(case, rec):
    frames = []
    for f, things in enumerate(crowd(case["crowd"])):
        if case["dist"] == "iou":
            dets = [[x, y, 9, 11] for _, x, y in things]
        else:
            dets = [[(x, y)[k % 2] + k for k in range(2 * case["npts"])] for _, x, y in things]
        frames.append([1 + (f // 30) % 2, dets])
    run(dict(case, frames=frames), rec)


def perm(n, k):
    """k-th arrangement of range(n) in a fixed order."""
    items, out = list(range(n)), []
    for m in range(n, 0, -1):
        out.append(items.pop(k % m))
        k //= m
    return out


def run(case, rec):
    from norfair import Tracker

    dist, npts, ch = case["dist"], case["npts"], case["change"]
    thr = (case["thr"] / 31 if dist == "iou" else case["thr"]) + 0.00713
    rec.tag(ch, dist)
    scale, shift, swap, pp, far, mirror = 1.0, np.zeros(2), False, list(range(npts)), False, False
    if ch in ("scale", "combo"):
        scale = [2.0, 0.5, 1024.0, 3.0, 0.1, 1 / 640][case["k"] % 6]
    if ch == "mirror" and dist != "iou":
        mirror = True
    if ch in ("shift", "combo"):
        shift = np.array(case["a"], float) * 1.37 * case.get("afar", 1)
    if ch in ("swap", "combo"):
        swap = True
    if ch == "points" and dist != "iou":
        pp = perm(npts, case["k"])
    if ch == "far":
        far = True

    def g(pts, vector=False):
        q = np.array(pts, float)[pp]
        if swap:
            q = q[:, ::-1]
        q = q * scale * (-1 if mirror else 1)
        return q if vector else q + shift

    record = []

    def base(det, obj):
        a, b = det.points.ravel().tolist(), np.asarray(obj.estimate).ravel().tolist()
        if dist == "iou" and not (b[0] < b[2] and b[1] < b[3]):
            raise Discard()
        d = formula(dist, a, b)
        record.append(d)
        return d

    kw = dict(hit_counter_max=case["hcm"], initialization_delay=case["delay"])
    t = Tracker(base, thr, filter_factory=filter_factory(case["filter"]), **kw)
    u = Tracker(dist, thr if dist == "iou" else thr * scale, filter_factory=filter_factory(case["filter"]), **kw)
    hits = {}
    keep = []
    for f, (period, dets) in enumerate(case["frames"]):
        period = min(period, case["hcm"])
        D, E = [], []
        for i, c in enumerate(dets):
            c = [v + 0.4 * jitter(f, i, k) for k, v in enumerate(c)]
            if dist == "iou":
                c = [c[0], c[1], c[0] + 2 + c[2], c[1] + 2 + c[3]]
            pts = np.array(c).reshape(npts, 2)
            sc = np.array([((f + i + k) % 3) / 2 for k in range(npts)]) if case["scores"] else None
            D.append(detection(pts, sc, data=(f, i)))
            E.append(detection(g(pts), None if sc is None else sc[pp], data=(f, i)))
        if ch == "order":
            E = [E[j] for j in (perm(len(E), case["k"] + f) if "crowd" not in case else np.random.RandomState(case["k"] + f).permutation(len(E)))]
        if far:
            ex = [detection(np.array(D[0].points if D else [[0.0, 0.0]] * npts) + (5000 + 100 * j) * scale, None, data=("far", f, j)) for j in range([0, 1, 2, 3, 12, 40][case["k"] % 6])]
            if case["dist"] != "iou" or D:
                cut = len(ex) * (case["k"] % 5) // 4
                E = ex[:cut] + E + ex[cut:]
        record.clear()
        prev = {id(o): o.last_detection for o in t.tracked_objects}
        a = call_update(t, 0, D, period)
        vals = sorted([v for v in record if v < thr + 1] + [thr])
        if any(y - x < 2e-5 * max(1, x) for x, y in zip(vals, vals[1:])):
            raise Discard()
        b = call_update(u, 0, E, period)
        keep.append((list(t.tracked_objects), list(u.tracked_objects)))
        x = {o.last_detection.data: o for o in t.tracked_objects}
        y = {o.last_detection.data: o for o in u.tracked_objects if o.last_detection.data[0] != "far"}
        check(set(x) == set(y), "frame %d (%s): objects hold detections %s, expected %s", f, ch, sorted(y), sorted(x))
        check(sorted(o.last_detection.data for o in a) == sorted(o.last_detection.data for o in b if o.last_detection.data[0] != "far"),
              "frame %d (%s): the returned objects differ", f, ch)
        for key, o in x.items():
            p = y[key]
            check(o.hit_counter == p.hit_counter and o.age == p.age and (o.id is None) == (p.id is None), "frame %d (%s): counters differ", f, ch)
            check(list(np.asarray(o.live_points)[pp]) == list(p.live_points), "frame %d (%s): live points differ", f, ch)
            m = max(1.0, scale)
            check_near(p.estimate, g(o.estimate), "frame %d (%s): estimate" % (f, ch), 1e-9, 1e-7 * m)
            if o.last_distance is None or p.last_distance is None:
                check(o.last_distance is p.last_distance, "frame %d (%s): last_distance %r and %r", f, ch, o.last_distance, p.last_distance)
            else:
                check_near(float(p.last_distance), float(o.last_distance) * (1 if dist == "iou" else scale), "frame %d (%s): last_distance" % (f, ch), 1e-6, 1e-6 * m)
            check_near(p.estimate_velocity, g(o.estimate_velocity, True), "frame %d (%s): velocity" % (f, ch), 1e-9, 1e-7 * m)
            if id(o) in prev and prev[id(o)] is not o.last_detection:
                hits[id(o)] = hits.get(id(o), 0) + 1
                if hits[id(o)] >= 2:
                    rec.nontrivial = True


SUBS = [Sub("crowd", crowd_case, run_crowd, 100, 2500), Sub("equivariance", case_, run, 5000, 100000)]
