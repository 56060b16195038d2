"""Isolation: trackers are independent, deterministic, and leave their inputs alone."""
import copy

import numpy as np
from hypothesis import strategies as st

from ..core import Discard, Sub, check
from ..trk import FILTERS, LABELS, call_update, counters, detection, filter_factory, label_of
from ..util import LAYOUTS, jitter, laid_out

RULE = (
    "Two generated histories are tracked (a) each by a tracker of its own, (b) by interleaved trackers that share one "
    "filter factory and distance (with or without camera motion), while the caller overwrites everything it was given (returned lists, estimate, velocity "
    "and live point arrays) and the coordinate buffers it passed in. All observable state must be bit-identical and no "
    "detection, score array or detection list may be changed by update. Shared: several trackers, with different camera motions, are given the very same detections. Layout: the same numbers in arrays of other layouts (Fortran order, strided, reversed, read-only, views, "
    "subclasses) and types (float32, integers, big endian) must give the same tracks. Non-trivial: both histories matched objects."
)


@st.composite
def history(draw, npts):
    det = st.tuples(
        st.lists(st.integers(0, 9), min_size=2 * npts, max_size=2 * npts),
        st.one_of(st.none(), st.lists(st.integers(0, 2), min_size=npts, max_size=npts)), st.integers(0, 3),
    ).map(list)
    return draw(st.lists(st.tuples(st.sampled_from([0, 0, 0, 0, 1, 2]), st.lists(det, min_size=1, max_size=4), st.integers(0, 5)).map(list), min_size=3, max_size=8))


@st.composite
def case_(draw):
    hcm, delay = draw(counters(6))
    npts = draw(st.integers(1, 3))
    return {
        "hcm": hcm, "delay": delay, "npts": npts, "a": draw(history(npts)), "b": draw(history(npts)), "thr": draw(st.integers(2, 30)),
        "filter": draw(st.one_of(st.none(), FILTERS)), "dist": draw(st.sampled_from(["euclidean", "frobenius", "callable", "cityblock"])),
        "labels": draw(st.booleans()), "reid": draw(st.one_of(st.none(), st.none(), st.integers(0, 3))),
        "past": draw(st.integers(0, 3)), "vandal": draw(st.booleans()), "order": draw(st.lists(st.booleans(), min_size=1, max_size=16)),
        "dtype": draw(st.sampled_from(["f8", "f8", "f4", "i8"])), "cam": draw(st.sampled_from(["none", "none", "trans", "homog"])),
    }


def snap(t, ret):
    out = []
    for o in t.tracked_objects:
        out.append((
            o.last_detection.data, o.id, o.hit_counter, o.age, np.asarray(o.estimate).tolist(), np.asarray(o.estimate_velocity).tolist(), None if o.abs_to_rel is None else np.asarray(o.get_estimate(absolute=True)).tolist(),
            [bool(v) for v in o.live_points], [d.data for d in o.past_detections], o.label, None if o.last_distance is None else float(o.last_distance),
        ))
    return out, [o.last_detection.data for o in ret]


@st.composite
def crowd_case(draw):
    c = draw(case_())
    for name in "ab":
        c[name] = {"seed": draw(st.integers(0, 10 ** 6)), "n": draw(st.integers(8, 70)), "frames": draw(st.integers(2, 4))}
    return c


def crowd(spec, npts):
    rng = np.random.default_rng(spec["seed"])
    where = rng.integers(0, 400, (spec["n"], 2 * npts))
    out = []
    for f in range(spec["frames"]):
        order = rng.permutation(spec["n"])[: rng.integers(spec["n"] // 2, spec["n"] + 1)]
        out.append([0, [[(where[i] + rng.integers(0, 3, 2 * npts)).tolist(), None if i % 3 else rng.integers(0, 3, npts).tolist(), int(i % 4)] for i in order], int(rng.integers(0, 6))])
    return out


def frames_of(case, name):
    out = []
    if isinstance(case[name], dict):
        case = dict(case, **{name: crowd(case[name], case["npts"])})
    for f, (mode, dets, cam) in enumerate(case[name]):
        D = []
        for i, (c, sc, lab) in enumerate(dets if mode == 0 else []):
            pts = (np.array([v + jitter(f, i, k) for k, v in enumerate(c)]).reshape(-1, 2) * 4).astype(case["dtype"])
            D.append((pts, sc, label_of(LABELS[lab]) if case["labels"] else None, (f, i)))
        out.append((mode, D, cam))
    return out


def run(case, rec):
    from norfair import Detection, Tracker

    shared = None if case["filter"] is None else filter_factory(case["filter"])

    def dist_fn(det, obj):
        return float(np.abs(det.points - obj.estimate).sum())

    def reid(a, b):
        return float(np.abs(a.estimate - b.estimate).sum())

    def make(factory):
        kw = {} if factory is None else {"filter_factory": factory}
        if case["reid"] is not None:
            kw.update(reid_distance_function=reid, reid_distance_threshold=50.5, reid_hit_counter_max=case["reid"])
        return Tracker(dist_fn if case["dist"] == "callable" else case["dist"], 4 * case["thr"] + 0.31, hit_counter_max=case["hcm"],
                       initialization_delay=case["delay"], past_detections_length=case["past"], **kw)

    from norfair.camera_motion import HomographyTransformation, TranslationTransformation

    def transform(k):
        if case["cam"] == "trans":
            v = np.array([3.0 * k - 5, 2.0 * (k % 3)])
            return TranslationTransformation(v), v
        m = np.array([[1 + k / 50, k / 80, 4.0 * k], [-k / 90, 1 - k / 70, 3.0], [k / 1e5, 0, 1]])
        return HomographyTransformation(m), m

    def step(t, mode, spec, cam, vandal):
        D, bufs = [], []
        kw = {}
        if case["cam"] != "none":
            kw["coord_transformations"], arr = transform(cam)
            keep = arr.copy()
        for pts, sc, label, data in spec:
            p = pts.copy()
            s = None if sc is None else np.array(sc, float) / 2
            emb = [1, 2, 3]
            D.append(Detection(p, s, data=data, label=label, embedding=emb))
            bufs.append((p, s, emb))
        L = list(D)
        ret = call_update(t, mode, L, 1, **kw)
        check(not kw or np.array_equal(arr, keep), "update changed the coordinate transformation")
        check(len(L) == len(D) and all(x is y for x, y in zip(L, D)), "update changed the detections list")
        for (pts, sc, label, data), (p, s, emb), d in zip(spec, bufs, D):
            check(np.array_equal(p, pts) and p.dtype == pts.dtype, "update changed the caller's coordinates")
            check(np.array_equal(d.points, pts), "update changed the points of a detection: %s, were %s", d.points.tolist(), pts.tolist())
            check(sc is None and d.scores is None or np.array_equal(d.scores, np.array(sc, float) / 2), "update changed the scores of a detection")
            check(d.data == data and d.label == label and d.embedding is emb and emb == [1, 2, 3], "update changed data, label or embedding")
        s = snap(t, ret)
        if vandal:
            for o in list(t.tracked_objects):
                for a in (o.estimate, o.estimate_velocity, o.live_points, o.get_estimate(), *([o.get_estimate(True)] if kw else [])):
                    try:
                        a[...] = 0
                    except ValueError:
                        pass  # read-only is fine too
            for p, s2, _ in bufs:
                p[...] = -7
            L.clear()
            if isinstance(ret, list):
                ret.clear()
            act = t.get_active_objects()
            if isinstance(act, list):
                act.clear()
        return s

    A, B = frames_of(case, "a"), frames_of(case, "b")
    alone = {}
    for name, frames in (("a", A), ("b", B)):
        t = make(None if case["filter"] is None else filter_factory(case["filter"]))
        alone[name] = [copy.deepcopy(step(t, m, d, c, False)) for m, d, c in frames]
    ta, tb = make(shared), make(shared)
    todo = {"a": list(enumerate(A)), "b": list(enumerate(B))}
    i = 0
    while todo["a"] or todo["b"]:
        pick = "a" if case["order"][i % len(case["order"])] else "b"
        i += 1
        if not todo[pick]:
            pick = "b" if pick == "a" else "a"
        f, (m, d, c) = todo[pick].pop(0)
        got = step(ta if pick == "a" else tb, m, d, c, case["vandal"])
        want = alone[pick][f]
        # past detections alias the caller's buffers, everything else must be the same bit for bit
        check(got == want, "history %s, update %d: state differs from the same history tracked alone\n got  %s\n want %s", pick, f, got, want)
    if case["vandal"]:
        rec.tag("vandal")
    m = [any(s[-1] is not None for fr in alone[k] for s in fr[0]) for k in ("a", "b")]
    rec.nontrivial = all(m)


@st.composite
def shared_case(draw):
    c = draw(case_())
    c["b"] = c["a"]
    c["kinds"] = draw(st.lists(st.tuples(st.sampled_from(["none", "trans", "homog"]), st.integers(0, 4)).map(list), min_size=2, max_size=3))
    return c


def run_shared(case, rec):
    """The very same detections given to several trackers, with and without camera motion: each as if it was the only one."""
    from norfair import Detection, Tracker
    from norfair.camera_motion import HomographyTransformation, TranslationTransformation

    def make(past):
        kw = {} if case["filter"] is None else {"filter_factory": filter_factory(case["filter"])}
        if case["reid"] is not None:
            kw.update(reid_distance_function=lambda a, b: float(np.abs(a.estimate - b.estimate).sum()), reid_distance_threshold=50.5, reid_hit_counter_max=case["reid"])
        return Tracker(case["dist"] if case["dist"] != "callable" else lambda d, o: float(np.abs(d.points - o.estimate).sum()), 4 * case["thr"] + 0.31,
                       hit_counter_max=case["hcm"], initialization_delay=case["delay"], past_detections_length=past, **kw)

    def transform(cam, k):
        if cam == "none":
            return None
        if cam == "trans":
            return TranslationTransformation(np.array([3.0 * k - 5, 2.0 * (k % 3)]))
        return HomographyTransformation(np.array([[1 + k / 50, k / 80, 4.0 * k], [-k / 90, 1 - k / 70, 3.0], [k / 1e5, 0, 1]]))

    def dets(spec):
        return [Detection(pts.copy(), None if sc is None else np.array(sc, float) / 2, data=data, label=label) for pts, sc, label, data in spec]

    frames = frames_of(case, "a")
    want = []
    for cam, past in case["kinds"]:
        t = make(past)
        want.append([copy.deepcopy(snap(t, call_update(t, m, dets(d), 1, **({} if cam == "none" else {"coord_transformations": transform(cam, c)})))) for m, d, c in frames])
    trackers = [make(past) for _, past in case["kinds"]]
    for f, (m, d, c) in enumerate(frames):
        D = dets(d)
        for k in sorted(range(len(trackers)), key=lambda k: case["order"][(f + k) % len(case["order"])]):
            cam = case["kinds"][k][0]
            got = snap(trackers[k], call_update(trackers[k], m, D, 1, **({} if cam == "none" else {"coord_transformations": transform(cam, c)})))
            check(got == want[k][f], "update %d, tracker %d (%s) of %s that share their detections: state differs from the one with detections of its own\n got  %s\n want %s",
                  f, k, cam, case["kinds"], got, want[k][f])
    rec.nontrivial = len({k for k, _ in case["kinds"]}) > 1 and any(s[-1] is not None for fr in want[0] for s in fr[0])


@st.composite
def layout_case(draw):
    c = draw(case_())
    c["lay"] = draw(st.lists(st.tuples(st.integers(0, len(LAYOUTS) - 1), st.integers(0, len(LAYOUTS) - 1)).map(list), min_size=1, max_size=4))
    c["whole"] = draw(st.booleans())
    return c


def run_layout(case, rec):
    """The same numbers in arrays of another memory layout or number type give the same tracks."""
    from norfair import Detection, Tracker

    case = dict(case, dtype="f8")

    def make():
        kw = {} if case["filter"] is None else {"filter_factory": filter_factory(case["filter"])}
        if case["reid"] is not None:
            kw.update(reid_distance_function=lambda a, b: float(np.abs(a.estimate - b.estimate).sum()), reid_distance_threshold=50.5, reid_hit_counter_max=case["reid"])
        return Tracker(case["dist"] if case["dist"] != "callable" else "mean_manhattan", 4 * case["thr"] + 0.31, hit_counter_max=case["hcm"],
                       initialization_delay=case["delay"], past_detections_length=case["past"], detection_threshold=0.25, **kw)

    def transform(k):
        from norfair.camera_motion import HomographyTransformation, TranslationTransformation

        if case["cam"] == "none":
            return {}
        if case["cam"] == "trans":
            return {"coord_transformations": TranslationTransformation(np.array([3.0 * k - 5, 2.0 * (k % 3)]))}
        return {"coord_transformations": HomographyTransformation(np.array([[1 + k / 50, k / 80, 4.0 * k], [-k / 90, 1 - k / 70, 3.0], [k / 1e5, 0, 1]]))}

    def discrete(s):
        return [(x[0], x[1], x[2], x[3], x[7], x[8], x[9]) for x in s[0]], s[1]

    t, u = make(), make()
    matched = False
    for f, (mode, D, cam) in enumerate(frames_of(case, "a")):
        dets, alt, given = [], [], []
        for i, (pts, sc, label, data) in enumerate(D):
            # numbers that every type holds exactly; ties are rare
            pts = np.round(pts) if case["whole"] else np.round(pts * 64) / 64
            scores = None if sc is None else np.array(sc, float) / 2
            how, how_s = case["lay"][(f + i) % len(case["lay"])]
            p = laid_out(pts, LAYOUTS[how])
            s = None if scores is None else laid_out(scores, LAYOUTS[how_s])
            if LAYOUTS[how] == "int" and p.dtype == int or LAYOUTS[how] not in ("int", "float32"):
                rec.tag(LAYOUTS[how])
            dets.append(Detection(pts, scores, data=data, label=label))
            alt.append(Detection(p, s, data=data, label=label))
            given.append((p, p.copy(), s, None if s is None else s.copy()))
        a, b = snap(t, call_update(t, mode, dets, 1, **transform(cam))), snap(u, call_update(u, mode, alt, 1, **transform(cam)))
        for p, keep, s, keep_s in given:
            check(np.array_equal(p, keep) and (s is None or np.array_equal(s, keep_s)), "update changed arrays it was given")
        near = len({x[0] for x in a[0]}) == len({x[0] for x in b[0]}) and discrete(a) != discrete(b)
        if near and case["whole"]:
            raise Discard()  # whole numbers have ties, which may go either way
        check(discrete(a) == discrete(b), "update %d: arrays laid out as %s give other tracks\n got  %s\n want %s", f, case["lay"], b, a)
        for x, y in zip(a[0], b[0]):
            for k, what in ((4, "estimate"), (5, "velocity")):
                check(np.allclose(x[k], y[k], rtol=1e-9, atol=1e-7), "update %d: arrays laid out as %s give %s %s instead of %s", f, case["lay"], what, y[k], x[k])
            matched = matched or x[-1] is not None
    rec.nontrivial = matched


SUBS = [Sub("layout", layout_case, run_layout, 1500, 30000), Sub("shared", shared_case, run_shared, 800, 15000), Sub("isolation", case_, run, 3000, 60000), Sub("crowd", crowd_case, run, 100, 3000)]
