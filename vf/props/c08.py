"""Re-identification: hidden objects wait, come back under their old identity, or expire."""
import numpy as np
from hypothesis import strategies as st

from ..core import Sub, check
from ..trk import CAMERAS, call_update, camera, detection, effective_delay, filter_factory
from ..util import check_near, jitter

RULE = (
    "People appear, vanish and reappear elsewhere (a new appearance only matches by ReID distance on its embedding); a "
    "reference model of counters, hiding, candidate selection, closest-first merging with labels and thresholds, revival "
    "and expiry predicts the exact objects returned with their ids, counters, ages, past detections, and (through one "
    "shadow tracker per filter, points scored in some cases) estimates and live points. Non-trivial: a hidden object was revived under its old id."
)
ASSUMPTIONS = ["hit_counter_max >= 2 * period", "no ties between ReID distances"]


@st.composite
def case_(draw):
    period = draw(st.sampled_from([1, 1, 1, 2, 3]))
    hcm = 2 * period + draw(st.sampled_from([0, 0, 1, 1, 2, 3, 6]))
    delay = draw(st.one_of(st.none(), st.integers(period, hcm - 1), st.integers(0, hcm - 1)))
    reid = draw(st.sampled_from([0, 1, 2, 3, 4, 5, 6, 8, 10, 12, None]))
    n = draw(st.integers(1, 4))
    people = draw(st.lists(st.tuples(st.integers(0, 2), st.sampled_from([3, 3, 3, 0, 1])).map(list), min_size=n, max_size=n))
    run = st.tuples(
        st.one_of(st.sampled_from([0, 2 ** n - 1]), st.integers(0, 2 ** n - 1)), st.sampled_from([1, 2, 3, 4, 5, 6, 7, 1, 2, 3, 4, 5, 6, 7, 45]),
        st.sampled_from([0, 0, 0, 2 ** n - 1, 1]), st.integers(0, 3), st.sampled_from([0, 0, 1, 2]),
    ).map(list)
    runs = draw(st.lists(run, min_size=2, max_size=10))
    if draw(st.integers(0, 2)) and reid is not None:
        # seen until initialized, away until hidden (or gone), and back as somebody new
        runs = []
        for _ in range(draw(st.integers(1, 3))):
            mask = draw(st.sampled_from([2 ** n - 1, 2 ** n - 1, draw(st.integers(1, 2 ** n - 1))]))
            runs.append([mask, draw(st.integers(hcm // (2 * period), hcm + 2)), 0, 0, draw(st.sampled_from([0, 0, 1, 2]))])
            away = draw(st.integers(hcm, hcm + reid + 3))
            others = draw(st.sampled_from([0, 0, draw(st.integers(0, 2 ** n - 1))]))
            runs.append([others, away, draw(st.sampled_from([0, 2 ** n - 1])), draw(st.integers(0, 3)), 0])
        runs.append([2 ** n - 1, draw(st.integers(1, hcm + 3)), 0, 0, draw(st.sampled_from([0, 0, 1, 2]))])
    return {
        "period": period, "hcm": hcm, "delay": delay, "reid": reid, "people": people,
        "runs": runs, "thr": draw(st.sampled_from([2, 1, 0, 5, 2, 1, 0, 5, "inf"])),
        "filter": draw(st.sampled_from([["opt"], ["opt"], ["no"], ["fpy"]])), "past": draw(st.integers(0, 4)),
        "fn": draw(st.integers(0, 7)) != 7, "pm": draw(st.integers(1 if period == 1 else period, 5)), "scores": draw(st.sampled_from([0, 0, 1, 2])), "cam": draw(CAMERAS),
    }


@st.composite
def crowd_case(draw):
    """Many people, or a long history."""
    c = draw(case_())
    n = draw(st.sampled_from([1, 2, 12, 30]))
    long = n < 3
    c["people"] = [[k % 3, 3 if k % 5 else k % 2] for k in range(n)]
    c["long"] = 500 if long else 50
    if c["reid"] is not None:
        c["reid"] = draw(st.sampled_from([c["reid"], 40, 300 if long else 20]))
    if long:
        c["hcm"] = draw(st.sampled_from([c["hcm"], 40]))
    rnd = np.random.RandomState(draw(st.integers(0, 999)))
    runs = []
    full = 2 ** n - 1
    for k in range(12):
        bits = sum(int(b) << i for i, b in enumerate(rnd.rand(n) < 0.7)) or full
        runs.append([bits, int(rnd.randint(3, 60 if long else 8)), 0, 0, int(rnd.randint(0, 3))])
        if rnd.rand() < 0.8:
            runs.append([0 if long or rnd.rand() < 0.5 else bits & sum(int(b) << i for i, b in enumerate(rnd.rand(n) < 0.5)), int(rnd.randint(2, 70 if long else 14)), 0, int(rnd.randint(0, 4)), 0])
    c["runs"] = runs
    return c


class Obj:
    def __init__(self, det, period, delay, shadow):
        self.hc, self.age, self.init, self.det = period, 0, period > delay, det
        self.reid = None
        self.period = period
        self.id = None
        self.shadow = shadow
        self.past = [(det, 0)]
        self.real = None
        self.last_distance = None


def add_past(o, det, cap):
    if cap == 0:
        return
    if len(o.past) < cap:
        o.past.append((det, o.age))
    elif o.age >= o.past[0][1] * cap:
        o.past.pop(0)
        o.past.append((det, o.age))


def reid_dist(new_det, old_det, far=False):
    (tn, en, _), (to, eo, _) = new_det.data, old_det.data
    if far and en != eo:
        return np.inf
    return abs(en - eo) + 0.25 * jitter(tn, to, 7)


def run(case, rec):
    from norfair import Tracker

    maxp, hcm, cap = case["period"], case["hcm"], case["past"]
    d = effective_delay(hcm, case["delay"])
    far = case["thr"] == "inf"
    thr = np.inf if far else case["thr"] + 0.5
    rec.tag(*["infinite threshold"] * far)
    keep = []

    def shadow_tracker():
        return Tracker(lambda a, b: 0.25, 1.0, hit_counter_max=10 ** 6, initialization_delay=0,
                       pointwise_hit_counter_max=case["pm"], filter_factory=filter_factory(case["filter"]))

    frame_tags = set()

    def dist(det, obj):
        return 0.25 if det.data[0] == obj.last_detection.data[0] else 1e6

    def reid(new, old):
        check(new.last_detection.data[0] in frame_tags and new is not old, "the ReID candidate was not matched in this frame")
        return reid_dist(new.last_detection, old.last_detection, far)

    kw = {"reid_hit_counter_max": case["reid"]}
    if case["fn"]:
        kw.update(reid_distance_function=reid, reid_distance_threshold=thr)
    t = Tracker(dist, 1.0, hit_counter_max=hcm, initialization_delay=case["delay"], past_detections_length=cap,
                pointwise_hit_counter_max=case["pm"], filter_factory=filter_factory(case["filter"]), **kw)
    model = []
    next_id = 1
    used_ids = set()
    appearance = {}
    present_before = set()
    f = 0
    next_tag = 0
    frames = []
    for mask, length, stay, mode, *period in case["runs"]:
        # the period may change from run to run
        P = min(period[0], maxp) if period and period[0] else maxp
        now = {p for p in range(len(case["people"])) if mask >> p & 1}
        for p in now:
            # a person that comes back is a new appearance unless its `stay` bit is set
            if p not in appearance or (p not in present_before and not stay >> p & 1):
                appearance[p] = next_tag
                next_tag += 1
        present_before = now
        for _ in range(length):
            frames.append(([(p, appearance[p]) for p in sorted(now)] if now else mode, P))
    tail = (case["reid"] or 0) + hcm + 2 * maxp + 4
    for item, P in frames[:case.get("long", 160)] + [(1, maxp)] * tail:
        f += 1
        first_id = next_id
        dets = []
        mode = 0
        if isinstance(item, list):
            for p, tag in item:
                emb, lab = case["people"][p]
                pts = [[50.0 * tag + jitter(tag, f), 30 * jitter(f, tag)], [7 * jitter(f, tag, 1), 5.0]]
                scores = None
                if case.get("scores") and (case["scores"] == 1 or f % 2):
                    # some appearances do not show some point for a long time, others blink
                    scores = [(tag + k + (f // 3 if tag % 2 else 0)) % 3 / 2 for k in range(2)]
                dets.append(detection(pts, scores, data=(tag, emb, f), label=None if lab == 3 else lab))
        else:
            mode = item
        frame_tags.clear()
        frame_tags.update(x.data[0] for x in dets)
        # --- model
        if case["reid"] is None:
            model = [o for o in model if o.hc >= 0]
            alive, dead = list(model), []
        else:
            model = [o for o in model if o.reid is None or o.reid >= 0]
            alive = [o for o in model if o.hc >= 0]
            dead = [o for o in model if o.hc < 0]
        if len(dead):
            rec.tag("hidden objects waiting")
        for o in model:
            if o.reid is None:
                if o.hc <= 0:
                    o.reid = case["reid"]
            else:
                o.reid -= 1
            o.hc -= 1
            o.age += 1
        free = list(dets)
        cands, left = [], []
        for was_init in (True, False):
            for o in [o for o in alive if o.init == was_init and o not in cands and o not in left]:
                m = [x for x in free if x.data[0] == o.det.data[0]]
                if m:
                    x = m[0]
                    free = [y for y in free if y is not x]
                    add_past(o, x, cap)
                    o.det = x
                    o.hc = min(o.hc + 2 * P, hcm)
                    o.reid = None
                    o.last_distance = 0.25
                    if not was_init:
                        cands.append(o)
                        if o.hc > d:
                            o.init = True
                            next_id += 1
                    o.hit_now = f
                else:
                    o.hit_now = None
                    if was_init:
                        left.append(o)
        for o in dead:
            o.hit_now = None
        for o in model:
            o.shadow.update([o.det] if o.hit_now == f else None, P, **camera(case, f))
        if case["fn"]:
            pairs = sorted(
                (reid_dist(c.det, o.det, far), ci, oi)
                for ci, c in enumerate(cands) for oi, o in enumerate(left + dead) if c.det.label == o.det.label
            )
            usedc, usedo = set(), set()
            for dd, ci, oi in pairs:
                if dd >= thr or ci in usedc or oi in usedo:
                    if dd < thr:
                        rec.tag("competing merges")
                    continue
                usedc.add(ci)
                usedo.add(oi)
                c, o = cands[ci], (left + dead)[oi]
                rec.tag("merged into a hidden object" if o.hc < 0 else "merged into a visible object")
                if o.hc < 0 and o.init:
                    rec.nontrivial = True
                    rec.tag("revived")
                if o.hc < 0 and not o.init:
                    rec.tag("merged into one that never initialized")
                o.hc = 2 * o.period
                if c.period != o.period:
                    rec.tag("merged after the period changed")
                o.reid = None
                o.det = c.det
                o.shadow = c.shadow
                o.last_distance = c.last_distance
                for x, _ in c.past if cap else []:
                    add_past(o, x, cap)
                model = [x for x in model if x is not c]
        fresh = []
        for x in free:
            s = shadow_tracker()
            s.update([x], P, **camera(case, f))
            s.tracked_objects[0].hit_counter = 10 ** 6  # shadows do not die
            o = Obj(x, P, d, s)
            if o.init:
                next_id += 1
            fresh.append(o)
        model += fresh
        # --- the real thing
        ret = call_update(t, mode, dets, P, **camera(case, f))
        keep.append((dets, list(t.tracked_objects)))
        want = {o.det.data[0]: o for o in model if o.init and o.hc >= 0}
        got = {o.last_detection.data[0]: o for o in ret}
        check(len(got) == len(ret), "frame %d: an appearance is returned twice", f)
        check(set(got) == set(want), "frame %d: returned appearances %s, expected %s", f, sorted(got), sorted(want))
        check(t.total_object_count == next_id - 1, "frame %d: total_object_count %r, expected %d", f, t.total_object_count, next_id - 1)
        visible = {}
        for r in t.tracked_objects:
            if r.hit_counter >= 0:
                tag = r.last_detection.data[0]
                check(tag not in visible, "frame %d: appearance %d is tracked twice", f, tag)
                visible[tag] = r
        mvis = {o.det.data[0]: o for o in model if o.hc >= 0}
        check(set(visible) == set(mvis), "frame %d: tracked appearances %s, expected %s", f, sorted(visible), sorted(mvis))
        for tag, o in mvis.items():
            r = visible[tag]
            if o.real is None:
                o.real = r
                check(not any(x is not o and x.real is r for x in model), "frame %d: a new appearance reused a live object", f)
            check(o.real is r, "frame %d: appearance %d is not held by the object it belongs to", f, tag)
            check((r.id is not None) == o.init, "frame %d: object %r initialized: expected %s", f, r.id, o.init)
            if o.init and o.id is None:
                # ids of one update may be given in any order
                check(first_id <= r.id < next_id and r.id not in used_ids, "frame %d: id %r given, expected one of %d..%d", f, r.id, first_id, next_id - 1)
                used_ids.add(r.id)
                o.id = r.id
            if o.init:
                check(r.id == o.id, "frame %d: id %r, expected %r", f, r.id, o.id)
            check(r.hit_counter == o.hc, "frame %d: hit_counter %r, expected %r", f, r.hit_counter, o.hc)
            check(r.age == o.age, "frame %d: age %r, expected %r", f, r.age, o.age)
            check(r.last_detection is o.det, "frame %d: wrong last_detection", f)
            check(r.last_distance == o.last_distance, "frame %d: last_distance %r, expected %r", f, r.last_distance, o.last_distance)
            s = o.shadow.tracked_objects[0]
            check_near(r.estimate, s.estimate, "frame %d: estimate" % f, 1e-9, 1e-9)
            check_near(r.estimate_velocity, s.estimate_velocity, "frame %d: velocity" % f, 1e-9, 1e-9)
            check(list(r.live_points) == list(s.live_points), "frame %d: live points %s, expected %s", f, list(r.live_points), list(s.live_points))
            wantp = [x.data for x, _ in o.past] if cap else []
            check([x.data for x in r.past_detections] == wantp, "frame %d: past detections %s, expected %s", f,
                  [x.data for x in r.past_detections], wantp)
        # hidden objects wait, their filters and points go on
        held = {id(r) for r in t.tracked_objects}
        for o in model:
            if o.hc < 0 and o.real is not None and id(o.real) in held:
                s = o.shadow.tracked_objects[0]
                check_near(o.real.estimate, s.estimate, "frame %d: estimate of a hidden object" % f, 1e-9, 1e-9)
                check(list(o.real.live_points) == list(s.live_points), "frame %d: live points %s of a hidden object, expected %s", f, list(o.real.live_points), list(s.live_points))
                check(o.real.age == o.age, "frame %d: age %r of a hidden object, expected %r", f, o.real.age, o.age)
                check(o.real.last_detection is o.det, "frame %d: a hidden object took a detection", f)
    check(len(t.tracked_objects) == 0, "%d objects are still held long after everything disappeared", len(t.tracked_objects))
    if not case["fn"]:
        rec.tag("no reid function")
    if case["reid"] is None:
        rec.tag("no reid_hit_counter_max")


REG = [
    # matched again right when its counter reached zero: used to be dropped later while continuously detected
    {"period": 1, "hcm": 4, "delay": 0, "reid": 1, "people": [[0, 3]], "thr": 0, "filter": ["opt"], "past": 2, "fn": True, "pm": 4,
     "runs": [[1, 1, 1, 1], [0, 1, 1, 1], [1, 1, 1, 1], [0, 2, 1, 1], [1, 7, 1, 1], [1, 7, 1, 1]]},
]
SUBS = [Sub("crowd", crowd_case, run, 100, 2500), Sub("reid", case_, run, 4000, 80000, REG)]
