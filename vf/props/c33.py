"""Well separated objects are each tracked under one identity, whatever the filter, distance and camera."""
import numpy as np
from hypothesis import strategies as st

from ..core import Sub, check
from ..trk import FILTERS, LABELS, call_update, detection, filter_factory, label_of
from ..util import jitter

RULE = (
    "Generated scenes: up to six bodies of 1-4 points whose distance never falls below 200 units move by at most 7 units a frame "
    "(a common steady motion plus bouncing in their own region), are detected or missed by generated scripts (with noise, labels, periods), "
    "seen by a fixed or moving camera, tracked with every named geometric distance or a function and every filter. An ideal tracker that knows which body each "
    "detection belongs to says how many objects exist, which bodies are returned and when an id changes; the tracker must agree in every frame, every estimate "
    "must stay within reach of its body, and match it closely (with its velocity) once a steady body was seen for long. Fast steady bodies must also be found again, and be estimated well, after gaps in which they moved beyond the reach of the threshold (their own sub-check). Non-trivial: at least two bodies, one of "
    "them initialized, missed for at least two frames and seen again; or a gap in which a body moved further than the threshold."
)

SPACING = 300.0
REACH = 110.0


@st.composite
def case_(draw):
    n = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 6]))
    dist = draw(st.sampled_from(["euclidean", "mean_euclidean", "frobenius", "mean_manhattan", "cityblock", "chebyshev", "iou", "iou_opt", "normalized", "callable"]))
    dim = 2 if dist in ("iou", "iou_opt", "normalized") else draw(st.sampled_from([2, 2, 3]))
    npts = 2 if dist in ("iou", "iou_opt") else draw(st.integers(1, 4))
    hcm = draw(st.sampled_from([1, 2, 3, 4, 5, 5, 6, 6, 7, 8]))
    steady = draw(st.booleans())
    runs = draw(st.lists(st.tuples(st.integers(0, 2 ** n - 1) if not steady else st.sampled_from([2 ** n - 1] * 3 + [0, 1, 2 ** (n - 1)]),
                                   st.sampled_from([1, 2, 3, 3, 4, 4, 5, 5, 8, 14])).map(list), min_size=draw(st.sampled_from([1, 4, 6])), max_size=9))
    return {
        "n": n, "dist": dist, "dim": dim, "npts": npts, "hcm": hcm, "delay": draw(st.one_of(st.none(), st.just(0), st.integers(0, hcm - 1))),
        "filter": draw(FILTERS), "runs": runs, "period": draw(st.sampled_from([1, 1, 1, 2, 3])),
        "common": draw(st.lists(st.integers(-8, 8).map(lambda v: v / 4), min_size=dim, max_size=dim)),
        "own": [[0] * dim if steady else draw(st.lists(st.integers(-6, 6).map(lambda v: v / 4), min_size=dim, max_size=dim)) for _ in range(n)],
        "noise": 0 if steady else draw(st.integers(0, 4)) / 4, "labels": draw(st.lists(st.sampled_from([0, 0, 1, 3, 5]), min_size=n, max_size=n)),
        "order": draw(st.permutations(list(range(n)))),
        "cam": draw(st.one_of(st.none(), st.none(), st.lists(st.integers(-16, 16), min_size=2, max_size=2))) if dim == 2 else None,
        "seed": draw(st.integers(0, 999)),
        # the detector is run more or less often as time goes by (one period for each run)
        "periods": draw(st.one_of(st.none(), st.none(), st.lists(st.integers(1, 6), min_size=2, max_size=4))),
    }


@st.composite
def crowd_case(draw):
    c = draw(case_())
    n = draw(st.sampled_from([1, 2, 12, 40, 150]))
    c["n"] = n
    c["seed"] = draw(st.integers(0, 999))
    rnd = np.random.RandomState(c["seed"])
    masks = [sum(int(b) << i for i, b in enumerate(rnd.rand(n) < draw(st.sampled_from([0.5, 0.9])))) for _ in range(12)]
    c["runs"] = [[m, int(rnd.randint(1, 6 if n < 50 else 2))] for m in masks]
    if n < 3:
        # long appearances, short gaps (the counter may allow for longer ones than a filter can bridge)
        c["runs"] = [r for k, m in enumerate(masks) for r in ([2 ** n - 1, int(rnd.randint(10, 90))], [m, int(rnd.randint(1, 6))])][:12]
        c["hcm"] = draw(st.sampled_from([c["hcm"], 15, 60]))
        if c["delay"] is not None:
            c["delay"] = min(c["delay"], c["hcm"] - 1)
        if draw(st.booleans()):
            # one that flickers for a long time
            a = draw(st.integers(1, 2))
            c["runs"] = [[2 ** n - 1, 12]] + [[2 ** n - 1, a], [draw(st.sampled_from([0, 1])), a]] * draw(st.integers(60, 200)) + [[2 ** n - 1, 6]]
            c["hcm"], c["delay"], c["period"], c["periods"] = draw(st.integers(3, 9)), 0, 1, None
    c["own"] = [[0] * c["dim"] if not any(c["own"][0]) else [int(v) / 4 for v in rnd.randint(-6, 7, c["dim"])] for _ in range(n)]
    c["labels"] = [int(v) for v in rnd.choice([0, 0, 1, 3, 5], n)]
    c["order"] = [int(v) for v in rnd.permutation(n)]
    return c


def scene(case):
    """positions[f][actor] -> points of every body in every frame (absolute)."""
    n, dim, npts = case["n"], case["dim"], case["npts"]
    frames = sum(r[1] for r in case["runs"])
    side = 1
    while side * side < n:
        side += 1
    out = []
    base, vel, shape = [], [], []
    for a in range(n):
        b = [SPACING * (a % side), SPACING * (a // side)] + [50.0] * (dim - 2)
        base.append(np.array(b))
        if case["dist"] in ("iou", "iou_opt"):
            shape.append(np.array([[-80.0, -80.0], [80.0, 80.0]]))
        else:
            shape.append(np.array([[16 * jitter(case["seed"], a, p, k) - 8 for k in range(dim)] for p in range(npts)]))
    off = [np.zeros(dim) for _ in range(n)]
    vel = [np.array(v, float) for v in case["own"]]
    for f in range(frames):
        row = []
        for a in range(n):
            if f:
                off[a] = off[a] + vel[a]
                for k in range(dim):
                    if abs(off[a][k]) > 30:
                        vel[a][k] = -abs(vel[a][k]) if off[a][k] > 0 else abs(vel[a][k])
            row.append(base[a] + off[a] + np.array(case["common"]) * f + shape[a])
        out.append(row)
    return out


def distance_of(case):
    from norfair.distances import create_normalized_mean_euclidean_distance as norm

    name, npts = case["dist"], case["npts"]
    if name in ("iou", "iou_opt"):
        return name, 0.95
    if name in ("euclidean", "frobenius"):
        return name, REACH * npts ** 0.5
    if name == "mean_manhattan":
        return name, REACH * 1.4
    if name == "cityblock":
        return name, REACH * 1.4 * npts
    if name == "normalized":
        return norm(500, 1000), REACH / 700
    if name == "callable":
        return (lambda det, obj: float(np.abs(np.mean(det.points, axis=0) - np.mean(obj.estimate, axis=0)).max())), REACH
    return name, REACH


def run(case, rec):
    from norfair import Tracker
    from norfair.camera_motion import TranslationTransformation

    n, hcm, period = case["n"], case["hcm"], min(case["period"], case["hcm"])
    delay = int(hcm / 2) if case["delay"] is None else case["delay"]
    dist, thr = distance_of(case)
    t = Tracker(dist, thr, hit_counter_max=hcm, initialization_delay=case["delay"], filter_factory=filter_factory(case["filter"]))
    present = []
    wanted = []
    for i, (mask, length) in enumerate(case["runs"]):
        present += [mask] * length
        wanted += [min(case["periods"][i % len(case["periods"])], hcm) if case.get("periods") else period] * length
    constant = len(set(wanted)) == 1
    if not constant:
        rec.tag("varying period")
    due = 0
    places = scene(case)
    model = {}  # actor -> the object the ideal tracker has for it
    given = 0
    ids_seen = {}
    back = False
    for f, mask in enumerate(present):
        detecting = f >= due
        if detecting:
            period = wanted[f]
            due = f + period
        cam = None if case["cam"] is None else np.array(case["cam"], float) / 2 * f
        dets = []
        for a in case["order"]:
            if detecting and mask >> a & 1:
                noise = np.array([[case["noise"] * (2 * jitter(case["seed"], f, a, p, k) - 1) for k in range(case["dim"])] for p in range(case["npts"])])
                pts = places[f][a] + noise
                dets.append(detection(pts if cam is None else pts + cam, data=a, label=label_of(LABELS[case["labels"][a]])))
        kw = {} if cam is None else {"coord_transformations": TranslationTransformation(cam)}
        returned = call_update(t, 0 if dets else 1, dets, period, **kw)
        # the ideal tracker
        for a in list(model):
            if model[a]["hits"] < 0:
                del model[a]
        for m in model.values():
            m["hits"] -= 1
            m["missed"] += 1
        for d in dets:
            a = d.data
            m = model.get(a)
            if m is None:
                m = model[a] = {"hits": period, "id": None, "seen": 0, "first": f, "streak": 0}
            else:
                if m["id"] is not None and m["missed"] > 2 * period and n > 1:
                    back = True
                m["hits"] = min(m["hits"] + 2 * period, hcm)
                m["streak"] = m["streak"] + 1 if m["missed"] <= period else 0
            if m["hits"] > delay and m["id"] is None:
                m["id"] = "given"
                given += 1
            m["missed"] = 0
        want = sorted(a for a, m in model.items() if m["id"] is not None and m["hits"] >= 0)
        got = sorted(o.last_detection.data for o in returned)
        check(got == want, "frame %d: objects of bodies %s are returned, expected %s", f, got, want)
        check(len(t.tracked_objects) == len(model), "frame %d: %d objects are tracked, expected those of bodies %s", f, len(t.tracked_objects), sorted(model))
        check(t.total_object_count == given, "frame %d: %d ids were given, expected %d", f, t.total_object_count, given)
        for o in t.tracked_objects:
            a = o.last_detection.data
            m = model[a]
            if m.setdefault("object", o) is not o:
                check(False, "frame %d: body %d changed its object", f, a)
            est = np.asarray(o.get_estimate(absolute=cam is not None), float)
            check(est.shape == places[f][a].shape, "estimate has shape %s", est.shape)
            err = float(np.abs(est - places[f][a]).max())
            check(err < REACH, "frame %d: the estimate of body %d is %.1f away from it", f, a, err)
            if m["missed"] == 0 and m["streak"] >= 12 and period == 1 and constant:
                rec.tag("settled")
                own = float(np.abs(case["own"][a]).max())
                lag = 0.0 if case["filter"][0] == "no" else 0.3 * float(np.abs(case["common"]).max()) + 8 * own
                check(err <= lag + case["noise"] * 2 + 1e-6, "frame %d: body %d was seen %d times in a row, yet its estimate is %.3f off", f, a, m["streak"], err)
                if case["filter"][0] != "no" and own == 0 and case["noise"] == 0:
                    verr = float(np.abs(np.asarray(o.estimate_velocity) - np.array(case["common"])).max())
                    check(verr <= 0.3 * float(np.abs(case["common"]).max()) + 1e-6, "frame %d: velocity of steady body %d is off by %.3f", f, a, verr)
        for o in returned:
            m = model[o.last_detection.data]
            if m["id"] == "given":
                check(isinstance(o.id, int) and o.id not in ids_seen, "frame %d: id %r was in use before", f, o.id)
                m["id"] = o.id
                ids_seen[o.id] = o.last_detection.data
            check(o.id == m["id"], "frame %d: body %d switched from id %r to %r", f, o.last_detection.data, m["id"], o.id)
            check(label_of(LABELS[case["labels"][o.last_detection.data]]) == o.label, "frame %d: wrong label %r", f, o.label)
    rec.tag(case["dist"], case["filter"][0])
    if case["cam"] is not None:
        rec.tag("camera")
    if back:
        rec.nontrivial = True


@st.composite
def coast_(draw):
    dim = draw(st.sampled_from([2, 2, 3]))
    n = draw(st.sampled_from([1, 1, 2, 3]))
    hcm = draw(st.sampled_from([4, 6, 8, 10, 15, 20]))
    gaps = draw(st.lists(st.tuples(st.integers(1, hcm), st.integers(15, 30)).map(list), min_size=1, max_size=3))
    return {
        "dim": dim, "n": n, "hcm": hcm, "gaps": gaps, "warm": draw(st.integers(15, 40)), "npts": draw(st.integers(1, 3)),
        "v": [draw(st.lists(st.integers(-25, 25).map(float), min_size=dim, max_size=dim)) for _ in range(n)],
        "filter": draw(st.sampled_from([["opt"], ["opt"], ["fpy"]])), "dist": draw(st.sampled_from(["euclidean", "mean_euclidean", "callable"])),
        "mode": draw(st.sampled_from([1, 2, 3])), "cam": draw(st.booleans()) if dim == 2 else False, "seed": draw(st.integers(0, 999)),
    }


def run_coast(case, rec):
    """Bodies that move steadily are found again where their motion took them, however far that is from where they were last seen."""
    from norfair import Tracker
    from norfair.camera_motion import TranslationTransformation

    dim, n, hcm = case["dim"], case["n"], case["hcm"]
    v = [np.array(x) for x in case["v"]]
    reach = 12.0 + 2.0 * max(float(np.linalg.norm(x)) for x in v)
    factor = case["npts"] ** 0.5 if case["dist"] == "euclidean" else 1.0
    dist = (lambda d, o: float(np.linalg.norm(d.points.mean(axis=0) - o.estimate.mean(axis=0)))) if case["dist"] == "callable" else case["dist"]
    t = Tracker(dist, reach * factor, hit_counter_max=hcm, initialization_delay=min(3, hcm - 1), filter_factory=filter_factory(case["filter"]))
    presence = [True] * case["warm"]
    counter = min(1 + (case["warm"] - 1), hcm)  # each detection is worth one more miss
    for gap, seen in case["gaps"]:
        gap = min(gap, counter)
        counter = min(counter - gap + seen, hcm)
        presence += [False] * gap + [True] * seen
    shape = np.array([[10 * jitter(case["seed"], p, k) for k in range(dim)] for p in range(case["npts"])])
    objects = {}
    missed = 0
    for f, there in enumerate(presence):
        # every body has its own part of the world: they never meet
        where = [np.array([1e5 * a] + [0.0] * (dim - 1)) + shape + v[a] * f for a in range(n)]
        cam = np.array([3.0 * f, -2.0 * f])
        kw = {"coord_transformations": TranslationTransformation(cam)} if case["cam"] else {}
        dets = [detection(where[a] + (cam if case["cam"] else 0), data=a) for a in range(n)] if there else []
        got = call_update(t, 0 if there else case["mode"], dets, 1, **kw)
        missed = 0 if there else missed + 1
        check(len(t.tracked_objects) == n, "frame %d: %d objects for %d bodies (missed for %d frames)", f, len(t.tracked_objects), n, missed)
        for o in t.tracked_objects:
            a = o.last_detection.data
            check(objects.setdefault(a, o) is o, "frame %d: body %d lost its identity after a gap", f, a)
            err = float(np.linalg.norm(np.asarray(o.get_estimate(absolute=case["cam"])) - where[a], axis=1).max())
            verr = float(np.linalg.norm(np.asarray(o.estimate_velocity) - v[a], axis=1).max())
            speed = float(np.linalg.norm(v[a]))
            if f >= 14:
                check(err <= 1e-6 + speed * (0.3 + 0.2 * missed), "frame %d: after %d frames without detections the estimate of a body of speed %.1f is %.2f off", f, missed, speed, err)
                check(verr <= 1e-6 + 0.2 * speed, "frame %d: velocity of a body of speed %.1f is %.2f off", f, speed, verr)
        if f >= 14:
            check(sorted(o.last_detection.data for o in got) == list(range(n)), "frame %d: bodies %s returned of %d", f, [o.last_detection.data for o in got], n)
            check(len({o.id for o in got}) == n and t.total_object_count == n, "frame %d: ids %s", f, [o.id for o in got])
        if not there and missed * max(float(np.linalg.norm(x)) for x in v) > reach:
            rec.nontrivial = True
            rec.tag("coasted beyond reach")
    rec.tag(case["filter"][0], case["dist"])


SUBS = [Sub("crowd", crowd_case, run, 100, 2500), Sub("scene", case_, run, 4000, 60000), Sub("coast", coast_, run_coast, 1500, 20000)]
