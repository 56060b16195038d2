"""Lifecycle: hit counter, initialization, survival and disappearance."""
from hypothesis import strategies as st

from ..core import Sub, check
from ..trk import CAMERAS, call_update, camera, counters, detection, effective_delay, runs, same_actor, script
from ..util import jitter

RULE = (
    "Actors appear and disappear following generated scripts (long runs and random bits; periods up to "
    "hit_counter_max; update() / None / [] when nothing is detected) in trackers with generated counters; an integer "
    "model of each object's counter, age, initialization and death predicts exactly which objects update() returns. "
    "Non-trivial: some object initialized and later disappeared or was removed, or an object died while initializing."
)
ASSUMPTIONS = ["no ReID (C08 covers it)"]


@st.composite
def case_(draw):
    hcm, delay = draw(st.one_of(counters(), counters(max_hcm=30)))
    if delay is not None and draw(st.integers(0, 7)) == 0:
        delay += 0.5
    n = draw(st.integers(1, 4))
    mp = draw(st.sampled_from([1, 1, 2, 3, 5]))
    if draw(st.integers(0, 7)):
        mp = min(hcm, mp)
    frames = draw(st.one_of(runs(n, max_period=mp, max_len=hcm + 4), script(n, max_period=mp)))
    return {
        "hcm": hcm, "delay": delay, "n": n, "frames": frames[:150],
        "dist": draw(st.sampled_from(["tag", "tag", "euclidean", "mean_euclidean"])),
        "default_hcm": draw(st.integers(0, 9)) == 0, "cam": draw(CAMERAS),
        "npts": draw(st.sampled_from([1, 1, 1, 2, 6, 20])), "scores": draw(st.sampled_from([0, 0, 1, 2, 3])), "labels": draw(st.integers(0, 2)), "deep": draw(st.sampled_from([False, False, True])),
    }


def run(case, rec):
    from norfair import Tracker

    hcm, delay = case["hcm"], case["delay"]
    if case["default_hcm"]:
        hcm, delay = 15, None
    d = effective_delay(hcm, delay)
    kw = {} if case["default_hcm"] else {"hit_counter_max": hcm}
    if delay is not None:
        kw["initialization_delay"] = delay
    if case["dist"] == "tag":
        t = Tracker(same_actor, 1.0, **kw)
    else:
        t = Tracker(case["dist"], 30.0, **kw)
    deep = case.get("deep", False) and case.get("cam", "none") == "none"
    model = {}  # actor -> dict(hc, age, init)
    keep = []
    total = 0
    for f, (mode, period, actors) in enumerate(case["frames"]):
        if period > hcm:
            rec.tag("period above hit_counter_max")
        dets = []
        for a in actors:
            scores = None
            if case.get("scores") and case["dist"] == "tag":
                # what the scores are makes no difference to the counters of the object
                scores = [[1.0, f % 2, 0.0][case["scores"] - 1] if k % 2 else 0.5 * (case["scores"] < 3) for k in range(case["npts"])]
            dets.append(detection([[1000.0 * a + jitter(a, f), jitter(f, a)] + [2.0] * deep] * case.get("npts", 1), scores, data=(a, f), label=None if not case.get("labels") else "class %d" % (a % case["labels"])))
        keep.append(dets)
        died_init = [a for a, m in model.items() if m["hc"] < 0 and not m["init"]]
        died = [a for a, m in model.items() if m["hc"] < 0]
        for a in died:
            del model[a]
            rec.tag("removed")
            rec.nontrivial = True
        if died_init:
            rec.tag("died while initializing")
        for m in model.values():
            m["hc"] -= 1
            m["age"] += 1
        for a, det in zip(actors, dets):
            if a in model:
                m = model[a]
                m["hc"] = min(m["hc"] + 2 * period, hcm)
                if m["hc"] > d and not m["init"]:
                    m["init"] = True
                    total += 1
                    rec.tag("initialized by a match")
                m["det"] = det
            else:
                model[a] = {"hc": period, "age": 0, "init": period > d, "det": det}
                if period > d:
                    total += 1
                    rec.tag("initialized at creation")
        ret = call_update(t, mode, dets, period, **(camera(case, f) if case["dist"] == "tag" or case.get("cam") == "still" else {}))
        want = {a: m for a, m in model.items() if m["init"] and m["hc"] >= 0}
        got = {}
        for o in ret:
            a = o.last_detection.data[0]
            check(a not in got, "frame %d: actor %d is returned twice", f, a)
            got[a] = o
        check(set(got) == set(want), "frame %d: objects returned for actors %s, expected %s (counters %s)", f,
              sorted(got), sorted(want), {a: (m["hc"], m["init"]) for a, m in model.items()})
        for a, o in got.items():
            m = want[a]
            check(o.hit_counter == m["hc"], "frame %d: hit_counter %r, expected %r", f, o.hit_counter, m["hc"])
            check(o.age == m["age"], "frame %d: age %r, expected %r", f, o.age, m["age"])
            check(o.last_detection is m["det"], "frame %d: last_detection is not the latest one", f)
            check(o.id is not None, "frame %d: a returned object has no id", f)
            if o.hit_counter == 0:
                rec.tag("alive at zero")
            if m["hc"] == hcm:
                rec.tag("saturated")
        check(t.current_object_count == len(want), "frame %d: current_object_count %r, expected %d", f, t.current_object_count, len(want))
        act = t.get_active_objects()
        check(len(act) == len(ret) and {id(o) for o in act} == {id(o) for o in ret}, "frame %d: get_active_objects differs from the returned objects", f)
        check(t.total_object_count == total, "frame %d: total_object_count %r, expected %d", f, t.total_object_count, total)
        tracked = {}
        for o in t.tracked_objects:
            a = o.last_detection.data[0]
            check(a not in tracked, "frame %d: actor %d has two objects", f, a)
            tracked[a] = o
        # objects that just went below zero may still be held until the next update
        for a, m in model.items():
            if m["hc"] >= 0:
                check(a in tracked and tracked[a].hit_counter == m["hc"] and tracked[a].age == m["age"]
                      and (tracked[a].id is not None) == m["init"],
                      "frame %d: actor %d should be tracked with counter %d, age %d, initialized %s", f, a, m["hc"], m["age"], m["init"])


@st.composite
def long_case(draw):
    """Large counters, and runs that are long enough to fill and to empty them."""
    hcm = draw(st.one_of(st.integers(31, 70), st.integers(31, 200)))
    delay = draw(st.one_of(st.none(), st.none(), st.integers(0, hcm - 1)))
    frames = []
    for mask, length, period, mode in draw(st.lists(st.tuples(
            st.integers(0, 3), st.one_of(st.integers(1, 20), st.integers(hcm // 2 - 2, hcm + 4)),
            st.sampled_from([1, 1, 1, 2, 5, hcm]), st.integers(0, 3)), min_size=1, max_size=6)):
        actors = [a for a in range(2) if mask >> a & 1]
        frames += [[0 if actors else mode, period, actors]] * length
    return {"hcm": hcm, "delay": delay, "n": 2, "frames": frames[:500], "dist": draw(st.sampled_from(["tag", "euclidean"])), "default_hcm": False}


@st.composite
def old_case(draw):
    """Objects that get old while their counters stay near the bottom, or anywhere else."""
    hcm = draw(st.integers(1, 30))
    delay = draw(st.one_of(st.none(), st.integers(0, min(2, hcm - 1))))
    frames = []
    for on, off, n in draw(st.lists(st.tuples(st.integers(1, 3), st.integers(0, 4), st.integers(5, 120)), min_size=1, max_size=6)):
        # as many misses as the matches make up for
        frames += ([[0, 1, [0]]] * on + [[off % 4, 1, []]] * min(on, off)) * n
        frames += [[1, 1, []]] * draw(st.integers(0, hcm - 1))
    return {"hcm": hcm, "delay": delay, "n": 1, "frames": frames[:1200], "dist": draw(st.sampled_from(["tag", "euclidean"])), "default_hcm": False}


SUBS = [Sub("lifecycle", case_, run, 5000, 100000), Sub("long", long_case, run, 240, 6000), Sub("old", old_case, run, 160, 4000)]
