"""Past detections: bounded memory spread over the life of an object."""
from hypothesis import strategies as st

from ..core import Sub, check
from ..trk import CAMERAS, call_update, camera, detection, filter_factory, runs
from ..util import jitter

RULE = (
    "Objects live through generated runs of matches and misses (up to hundreds of updates) with generated "
    "past_detections_length; a model of the buffer, following the observed matches, predicts its content, order and the "
    "recorded ages after every update. Non-trivial: a full buffer dropped its oldest detection at least once and also "
    "refused at least one detection; or, in the histories with ReID or with the same few detections over and over, an object that kept several detections was merged."
)


@st.composite
def case_(draw):
    n = draw(st.integers(1, 3))
    cap = draw(st.one_of(st.integers(0, 6), st.integers(0, 6), st.integers(7, 15)))
    return {
        "cap": cap, "n": n, "frames": draw(runs(n, max_period=2, max_runs=8, max_len=40))[:250], "hcm": draw(st.integers(2, 60)),
        "delay": draw(st.integers(0, 1)), "default": draw(st.integers(0, 8)) == 8, "filter": draw(st.sampled_from([["opt"], ["no"], ["fpy"]])),
        "reuse": draw(st.integers(0, 6)) == 6, "cam": draw(CAMERAS),
        "npts": draw(st.sampled_from([1, 1, 1, 2, 6, 20])),
    }


def run(case, rec):
    from norfair import Tracker

    cap = 4 if case["default"] else case["cap"]
    kw = {} if case["default"] else {"past_detections_length": cap}
    t = Tracker(lambda d, o: 0.25 if d.data[0] == o.last_detection.data[0] else 1e6, 1.0, hit_counter_max=case["hcm"],
                initialization_delay=case["delay"], filter_factory=filter_factory(case["filter"]), **kw)
    model = {}
    keep = []
    age_of = {}
    for f, (mode, period, actors) in enumerate(case["frames"]):
        dets = [detection([[100 * a + jitter(a, f), 1.0]] * case.get("npts", 1), data=(a, f)) for a in actors]
        old = {id(o): o.last_detection for o in t.tracked_objects}
        call_update(t, mode, dets, period, **camera(case, f))
        keep.append((dets, list(t.tracked_objects)))
        for o in t.tracked_objects:
            d = o.last_detection
            if id(o) not in old:
                check(o.age == 0, "a new object has age %r", o.age)
                past = [d] if cap > 0 else []
                age_of[id(d)] = 0
                model[id(o)] = [past, 0]
            else:
                m = model[id(o)]
                m[1] += 1
                check(o.age == m[1], "frame %d: age %r, expected %r", f, o.age, m[1])
                past = m[0]
                if d is not old[id(o)] and cap > 0:
                    if len(past) < cap:
                        past.append(d)
                        age_of[id(d)] = m[1]
                    elif m[1] >= age_of[id(past[0])] * cap:
                        past.pop(0)
                        past.append(d)
                        age_of[id(d)] = m[1]
                        rec.tag("rotated")
                    else:
                        rec.tag("refused")
            got = list(o.past_detections)
            check(len(got) <= cap, "frame %d: %d past detections, at most %d allowed", f, len(got), cap)
            check([x.data for x in got] == [x.data for x in past] and all(x is y for x, y in zip(got, past)),
                  "frame %d: past detections from frames %s, expected %s (age %d)", f, [x.data[1] for x in got], [x.data[1] for x in past], o.age)
            check([x.age for x in got] == [age_of[id(x)] for x in past], "frame %d: ages %s of the past detections, expected %s", f,
                  [x.age for x in got], [age_of[id(x)] for x in past])
    rec.nontrivial = rec.tags["rotated"] > 0 and rec.tags["refused"] > 0


@st.composite
def merge_case(draw):
    cap = draw(st.one_of(st.integers(1, 6), st.integers(0, 12)))
    hcm, slow = draw(st.integers(2, 5)), draw(st.integers(0, 6))
    frames = draw(runs(2, max_period=1, max_runs=8, max_len=14, min_runs=3))
    if draw(st.integers(0, 3)):
        # seen, out of sight for longer than the hit counter lasts, seen again, with small holes
        frames = []
        for _ in range(draw(st.integers(2, 4))):
            frames += [[0, 1, [0]]] * draw(st.integers(hcm + slow, hcm + slow + 8)) + [[0, 1, []]] * draw(st.integers(hcm + slow, hcm + slow + 4))
        for i, actors in draw(st.lists(st.tuples(st.integers(0, len(frames) - 1), st.sampled_from([[], [0], [1], [0, 1]])), max_size=4)):
            frames[i] = [0, 1, actors]
    return {"cap": cap, "frames": frames[:120], "hcm": hcm, "slow": slow, "reid": draw(st.integers(5, 40))}


def run_merge(case, rec):
    """With ReID: the detections a merged object kept are offered to the other one, oldest first."""
    from norfair import Tracker

    cap, slow = case["cap"], case["slow"]
    hcm = case["hcm"]
    # things are recognized once their object has seen a few detections, so that it keeps several of them
    t = Tracker(lambda d, o: 0.25 if d.data[0] == o.last_detection.data[0] else 1e6, 1.0, hit_counter_max=hcm + slow,
                initialization_delay=hcm + slow - 1, past_detections_length=cap, reid_hit_counter_max=case["reid"],
                reid_distance_function=lambda new, old: 0.25 if new.last_detection.data[0] == old.last_detection.data[0] and new.age >= slow else 1e6,
                reid_distance_threshold=1.0)
    model, ages, keep = {}, {}, []

    def offer(past, d, age):
        if cap == 0:
            return
        if len(past) == cap:
            if age < ages[id(past[0])] * cap:
                rec.tag("refused")
                return
            past.pop(0)
            rec.tag("rotated")
        past.append(d)
        ages[id(d)] = age

    for f, (mode, period, actors) in enumerate(case["frames"]):
        dets = [detection([[100 * a + jitter(a, f), 1.0]] * case.get("npts", 1), data=(a, f)) for a in actors]
        before = {id(o): (o, o.last_detection) for o in t.tracked_objects}
        call_update(t, mode, dets, 1, **camera(case, f))
        keep.append((dets, list(t.tracked_objects)))
        after = {id(o) for o in t.tracked_objects}
        gone = {}
        for key, (o, last) in before.items():
            m = model[key]
            if key not in after and o.last_detection is not last:
                offer(m["past"], o.last_detection, m["age"] + 1)
                gone[id(o.last_detection)] = m["past"]
        for o in t.tracked_objects:
            d = o.last_detection
            if id(o) not in before:
                m = model[id(o)] = {"past": [], "age": 0}
                offer(m["past"], d, 0)
            else:
                m = model[id(o)]
                m["age"] += 1
                if d is not before[id(o)][1]:
                    if id(d) in gone:
                        for x in gone[id(d)]:
                            offer(m["past"], x, m["age"])
                        rec.tag("merged")
                        if len(gone[id(d)]) > 1:
                            rec.nontrivial = True
                            rec.tag("merged with several past detections")
                    else:
                        offer(m["past"], d, m["age"])
            check(o.age == m["age"], "frame %d: age %r, expected %r", f, o.age, m["age"])
            got, past = list(o.past_detections), m["past"]
            check(len(got) == len(past) and all(x is y for x, y in zip(got, past)),
                  "frame %d: past detections from frames %s, expected %s (age %d)", f, [x.data[1] for x in got], [x.data[1] for x in past], o.age)
            check([x.age for x in got] == [ages[id(x)] for x in past], "frame %d: ages %s of the past detections, expected %s", f,
                  [x.age for x in got], [ages[id(x)] for x in past])


@st.composite
def long_case(draw):
    """Long lives and large buffers."""
    c = draw(case_())
    c["cap"] = draw(st.one_of(st.integers(2, 20), st.integers(16, 70)))
    c["default"] = False
    c["hcm"] = 200
    c["delay"] = 0
    frames = []
    for n, on, off in draw(st.lists(st.tuples(st.integers(1, 30), st.integers(1, 20), st.integers(0, 6)), min_size=2, max_size=8)):
        frames += ([[0, 1, [0]]] * on + [[0, 1, []]] * off) * n
    c["frames"] = frames[: draw(st.integers(200, 900))]
    c["n"] = 1
    return c


@st.composite
def again_case(draw):
    c = draw(case_())
    c["cap"], c["default"], c["n"] = draw(st.integers(1, 6)), False, 1
    c["frames"] = [f for f in c["frames"] if f[1] == 1][:100]
    c["which"] = draw(st.lists(st.integers(0, 3), min_size=1, max_size=9))
    c["others"] = draw(st.booleans())
    return c


def run_again(case, rec):
    """The same detections over and over, and given to another tracker as well: what an object keeps only depends on its own life."""
    from norfair import Tracker

    cap = case["cap"]
    t, u = (Tracker(lambda d, o: 0.25, 1.0, hit_counter_max=case["hcm"], initialization_delay=case["delay"], past_detections_length=n) for n in (cap, 2))
    pool = [detection([[1.0, 1.0]], data=k) for k in range(4)]
    model = {}
    reused = set()
    for f, (mode, _, actors) in enumerate(case["frames"]):
        d = pool[case["which"][f % len(case["which"])]]
        dets = [d] if actors and mode == 0 else []
        call_update(t, mode, dets, 1, **camera(case, f))
        if case["others"] and dets and f % 3:
            u.update([d])
        for o in t.tracked_objects:
            if id(o) not in model:
                model[id(o)] = [[(d, 0)], 0, o]
            else:
                m = model[id(o)]
                m[1] += 1
                past = m[0]
                if dets:
                    if len(past) == cap and m[1] >= past[0][1] * cap:
                        past.pop(0)
                        rec.tag("rotated")
                    if len(past) < cap:
                        past.append((d, m[1]))
                    else:
                        rec.tag("refused")
            past = model[id(o)][0]
            check(o.last_detection in pool and len(o.past_detections) == len(past) and all(x is y for x, (y, _) in zip(o.past_detections, past)),
                  "frame %d: past detections %s, expected %s", f, [x.data for x in o.past_detections], [(x.data, a) for x, a in past])
    rec.nontrivial = rec.tags["rotated"] > 0 and rec.tags["refused"] > 0


SUBS = [Sub("again", again_case, run_again, 800, 15000), Sub("past", case_, run, 2400, 50000), Sub("long", long_case, run, 160, 4000), Sub("merge", merge_case, run_merge, 1200, 20000)]
