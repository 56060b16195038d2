"""Point liveness: which points of an object are live follows the scores of its matches."""
import numpy as np
from hypothesis import strategies as st

from ..core import Sub, check
from ..trk import CAMERAS, FILTERS, call_update, camera, detection, filter_factory
from ..util import jitter

RULE = (
    "Objects with several scored points go through generated runs of matches (score masks around the detection "
    "threshold, scores equal to it, no scores at all) and misses with generated periods; an integer model of each point's "
    "counter, following only the matches that were observed, predicts live_points after every update. Non-trivial: some "
    "point changed between live and not live at least twice."
)
ASSUMPTIONS = ["no ReID (C08 covers the counters across a merge)"]

SC = [0.0, 0.25, 0.5, 0.75, 1.0]


@st.composite
def case_(draw):
    npts = draw(st.one_of(st.integers(1, 5), st.integers(1, 5), st.integers(6, 20)))
    hcm = draw(st.integers(1, 20))
    pm = draw(st.integers(1, 8))
    mp = draw(st.sampled_from([1, 1, 2, 3, 6]))
    seg = st.tuples(
        st.one_of(st.none(), st.lists(st.integers(0, 4), min_size=npts, max_size=npts)),
        st.integers(1, mp), st.integers(1, pm + 3), st.sampled_from([0, 0, 0, 1]),
    ).map(list)
    return {
        "npts": npts, "hcm": hcm, "pm": pm, "dthr": draw(st.integers(0, 3)),
        "delay": draw(st.one_of(st.none(), st.integers(0, hcm - 1))),
        "segs": draw(st.lists(seg, min_size=1, max_size=10)), "filter": draw(FILTERS),
        "dim": draw(st.sampled_from([2, 2, 3])), "actors": draw(st.integers(1, 2)),
        "default_pm": draw(st.integers(0, 7)) == 0, "fine": draw(st.sampled_from([0, 0, 1, 2])), "reid": draw(st.sampled_from([None, None, 3, 12])),
        "cam": draw(CAMERAS),
    }


def run(case, rec):
    from norfair import Tracker

    npts, hcm = case["npts"], case["hcm"]
    pm = 4 if case["default_pm"] else case["pm"]
    dthr = SC[case["dthr"]]
    kw = {} if case["default_pm"] else {"pointwise_hit_counter_max": pm}
    if case["dthr"]:
        kw["detection_threshold"] = dthr
    if case.get("reid") is not None:
        # hidden objects go on, nobody is ever recognized
        kw.update(reid_distance_function=lambda a, b: 1e6, reid_distance_threshold=1.0, reid_hit_counter_max=case["reid"])
    if case.get("fine"):
        # scores next to the threshold; none of them is between
        tiny = [None, 2.0 ** -52, 2.0 ** -30][case["fine"]]
        scs = [0.0, max(dthr - tiny, 0.0), dthr, dthr + tiny, 1.0]
    else:
        scs = SC
    t = Tracker(lambda d, o: 0.25 if d.data[0] == o.last_detection.data[0] else 1e6, 1.0, hit_counter_max=hcm,
                initialization_delay=case["delay"], filter_factory=filter_factory(case["filter"]), **kw)
    model = {}
    keep = []
    flips = {}
    f = 0
    for sc, period, length, miss in case["segs"]:
        for _ in range(length):
            f += 1
            dets = []
            if not miss:
                for a in range(case["actors"]):
                    if a and f % 2:
                        continue
                    s = None if sc is None else [scs[(v + a) % 5] for v in sc]
                    pts = [[100 * a + 10 * k + jitter(f, k, j) for j in range(case["dim"])] for k in range(npts)]
                    dets.append(detection(pts, s, data=(a, f)))
            old = {id(o): o.last_detection for o in t.tracked_objects}
            ret = call_update(t, 0 if dets else f % 4, dets, period, **(camera(case, f) if case["dim"] == 2 else {}))
            keep.append((dets, list(t.tracked_objects)))
            for o in t.tracked_objects:
                d = o.last_detection
                over = [True] * npts if d.scores is None else [bool(s > dthr) for s in d.scores]
                if id(o) not in old:
                    c = [1 if v else 0 for v in over]
                    cap = max(pm, period)
                    model[id(o)] = [c, cap]
                else:
                    c, cap = model[id(o)]
                    matched = d is not old[id(o)]
                    c = [v - 1 for v in c]
                    if matched:
                        c = [v + 2 * period if on else v for v, on in zip(c, over)]
                        c = [max(min(v, cap), 0) for v in c]
                        c = [max(v, 1) if on else v for v, on in zip(c, over)]
                    model[id(o)][0] = c
                live = np.asarray(o.live_points)
                check(live.shape == (npts,), "live_points has shape %s", live.shape)
                check(live.dtype == bool, "live_points has dtype %s", live.dtype)
                want = [v > 0 for v in c]
                check(live.tolist() == want, "frame %d: live points %s, expected %s (counters %s, scores %s)", f, live.tolist(), want, c,
                      None if d.scores is None else d.scores.tolist())
                prev = flips.get(id(o))
                if prev is not None and prev[0] != want:
                    prev[1] += 1
                    prev[0] = want
                    if prev[1] >= 2:
                        rec.nontrivial = True
                        rec.tag("flipped twice")
                elif prev is None:
                    flips[id(o)] = [want, 0]
                if any(v <= -2 for v in c):
                    rec.tag("long missing point")
                if any(v == cap for v in c):
                    rec.tag("capped")
                if not all(over):
                    rec.tag("partial scores")
            for o in ret:
                check(np.asarray(o.live_points).shape == (npts,), "live_points has a wrong shape")


REG = [
    # a point matched again after a gap longer than its counter must be live
    {"npts": 1, "hcm": 15, "pm": 4, "dthr": 0, "delay": 0, "segs": [[None, 1, 1, 0], [None, 1, 4, 0], [None, 1, 12, 1], [None, 1, 1, 0]],
     "filter": ["opt"], "dim": 2, "actors": 1, "default_pm": False},
    {"npts": 2, "hcm": 15, "pm": 4, "dthr": 2, "delay": 0,
     "segs": [[[4, 4], 1, 6, 0], [[0, 4], 1, 7, 0], [[0, 0], 1, 8, 1], [[4, 0], 1, 1, 0]],
     "filter": ["opt"], "dim": 2, "actors": 1, "default_pm": False},
]
@st.composite
def long_case(draw):
    """Hundreds of updates: counters far above and below zero."""
    c = draw(case_())
    c["hcm"] = draw(st.integers(100, 600))
    c["delay"] = draw(st.sampled_from([None, 0]))
    c["pm"] = draw(st.one_of(st.integers(1, 8), st.integers(50, 400)))
    c["default_pm"] = False
    c["segs"] = [[sc, period, length if draw(st.booleans()) else draw(st.integers(100, 280)), miss] for sc, period, length, miss in c["segs"][:4]]
    return c


SUBS = [Sub("liveness", case_, run, 5000, 100000, REG), Sub("long", long_case, run, 200, 5000)]
