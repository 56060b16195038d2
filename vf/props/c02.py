"""Every detection ends up in exactly one object: matched to an existing one or seeding a new one."""
import numpy as np
from hypothesis import strategies as st

from ..core import Sub, check
from ..trk import CAMERAS, FILTERS, LABELS, call_update, camera, crowd, crowds, detection, filter_factory, label_choice, label_of
from ..util import check_equal_arrays

RULE = (
    "Random trackers (all distances' kinds, filters, delays, periods, with and without ReID, labels, score masks) are "
    "fed random frames, including update() without detections, None and []. After each update every detection must be "
    "the last detection of exactly one tracked object, and an object that appeared must carry the coordinates, label "
    "and fresh state of exactly one unmatched detection. Non-trivial: an update both matched an existing object and "
    "created a new one."
)


@st.composite
def case_(draw):
    hcm = draw(st.integers(1, 7))
    dim = draw(st.sampled_from([2, 2, 3]))
    npts = draw(st.integers(1, 4))
    lab = draw(label_choice(1, 3))
    coord = st.integers(-40, 40)
    det = st.tuples(
        st.lists(coord, min_size=dim * npts, max_size=dim * npts),
        st.integers(0, len(lab) - 1),
        st.one_of(st.none(), st.lists(st.integers(0, 4), min_size=npts, max_size=npts)),
    ).map(list)
    frames = draw(
        st.lists(
            st.tuples(
                st.sampled_from([0, 0, 0, 0, 0, 1, 2, 3]), st.integers(1, 3),
                st.lists(det, max_size=6),
            ).map(list),
            min_size=1, max_size=10,
        )
    )
    if draw(st.integers(0, 2)) > 0:
        # things that stay, each close to where it was, and newcomers
        things = draw(st.lists(det, min_size=2, max_size=6))
        frames = []
        for period, seen in draw(st.lists(st.tuples(st.integers(1, 3), st.lists(st.tuples(st.integers(0, 4), st.integers(-1, 1)), min_size=len(things), max_size=len(things))), min_size=2, max_size=9)):
            frames.append([0, period, [[[v + move for v in c], li, sc] for (c, li, sc), (there, move) in zip(things, seen) if there > 1]])
    return {
        "hcm": hcm, "delay": draw(st.one_of(st.none(), st.integers(0, hcm - 1))), "dim": dim, "npts": npts,
        "labels": lab, "frames": frames, "filter": draw(FILTERS), "dthr": draw(st.integers(0, 3)) / 4,
        "dist": draw(st.sampled_from(["euclidean", "mean_euclidean", "callable", "frobenius", "cityblock"])),
        "thr": draw(st.sampled_from([1.0, 8.0, 20.0, 1e6])),
        "reid": draw(st.one_of(st.none(), st.none(), st.integers(0, 4))),
        "past": draw(st.integers(0, 4)), "cam": draw(CAMERAS),
    }


@st.composite
def crowd_case(draw):
    c = draw(case_())
    c["frames"] = []
    c["crowd"] = draw(crowds())
    c["dist"] = draw(st.sampled_from(["euclidean", "mean_euclidean", "frobenius", "cityblock"]))
    return c


def run_crowd(case, rec):
    frames = []
    for f, things in enumerate(crowd(case["crowd"])):
        frame = []
        for i, x, y in things:
            c = [(x if k % case["dim"] == 0 else y if k % case["dim"] == 1 else 3) + k for k in range(case["npts"] * case["dim"])]
            frame.append([c, i % len(case["labels"]), None if (i + f) % 3 else [(i + f + k) % 5 for k in range(case["npts"])]])
        frames.append([0, 1 + (f // 40) % 2, frame])
    rec.tag("crowd of %s" % ("many" if case["crowd"]["n"] > 100 else "some" if case["crowd"]["n"] > 9 else "few, long"))
    run(dict(case, frames=frames), rec)


def run(case, rec):
    from norfair import Tracker

    hcm = case["hcm"]
    dist = case["dist"]
    if dist == "callable":
        def dist(det, obj):
            return float(np.abs(det.points - obj.estimate).max())
    kw = {}
    if case["reid"] is not None:
        kw = dict(
            reid_distance_function=lambda a, b: float(np.abs(a.estimate - b.estimate).max()),
            reid_distance_threshold=case["thr"], reid_hit_counter_max=case["reid"],
        )
        rec.tag("reid")
    t = Tracker(
        dist, case["thr"], hit_counter_max=hcm, initialization_delay=case["delay"], filter_factory=filter_factory(case["filter"]),
        detection_threshold=case["dthr"], past_detections_length=case["past"], **kw
    )
    delay = int(hcm / 2) if case["delay"] is None else case["delay"]
    seen = set()
    keep = []
    for f, (mode, period, raw) in enumerate(case["frames"]):
        period = min(period, hcm)
        dets = []
        if mode == 0:
            for c, li, sc in raw:
                pts = np.array(c, float).reshape(case["npts"], case["dim"])
                dets.append(detection(pts, None if sc is None else [s / 4 for s in sc], label=label_of(LABELS[case["labels"][li]])))
        before = list(t.tracked_objects)
        before_last = [o.last_detection for o in before]
        old_ids = {id(o) for o in before}
        keep.extend(dets)
        call_update(t, mode, dets, period, **(camera(case, f) if case["dim"] == 2 else {}))
        after = list(t.tracked_objects)
        check(len({id(o) for o in after}) == len(after), "an object is tracked twice")
        holders = {}
        for o in after:
            holders.setdefault(id(o.last_detection), []).append(o)
        created, matched = 0, 0
        for i, d in enumerate(dets):
            h = holders.get(id(d), [])
            check(len(h) == 1, "detection %d of %d is the last detection of %d objects", i, len(dets), len(h))
            o = h[0]
            check(o.label == d.label and type(o.label) is type(d.label) or o.label == d.label,
                  "detection with label %r went to an object with label %r", d.label, o.label)
            if id(o) not in old_ids:
                created += 1
                check(id(o) not in seen, "an object reappeared")
                check(o.age == 0, "a new object has age %r", o.age)
                check(type(o.label) is type(d.label), "a new object has label %r, its detection %r", o.label, d.label)
                check_equal_arrays(np.asarray(o.estimate), d.points, "estimate of a new object")
                check_equal_arrays(np.asarray(o.estimate_velocity), np.zeros_like(d.points), "velocity of a new object")
                alive = [True] * len(d.points) if d.scores is None else [s > case["dthr"] for s in d.scores]
                if sum(alive):
                    check(np.asarray(o.live_points).tolist() == alive, "a new object has live points %s, its detection %s", o.live_points, alive)
                check(o.last_distance is None, "a new object has last_distance %r", o.last_distance)
                check(o.hit_counter == period, "a new object has hit_counter %r with period %r", o.hit_counter, period)
                check((o.id is not None) == (period > delay), "a new object has id %r (period %r, delay %r)", o.id, period, delay)
            else:
                matched += 1
        news = [o for o in after if id(o) not in old_ids]
        check(len(news) == created, "%d objects appeared out of %d unmatched detections", len(news), created)
        for o, last in zip(before, before_last):
            if o.last_detection is not last:
                check(any(o.last_detection is d for d in dets), "an object took a detection that is not in this frame")
        if mode != 0 or not dets:
            check(not news, "objects appeared without detections")
            rec.tag("empty mode %d" % mode)
        if created and matched:
            rec.nontrivial = True
            rec.tag("matched and created")
        seen.update(id(o) for o in after)
        keep.extend(after)


SUBS = [Sub("account", case_, run, 8000, 120000), Sub("crowd", crowd_case, run_crowd, 120, 3000)]
