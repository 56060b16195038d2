"""Identity: ids are assigned once, consecutively, and never shared."""
import numpy as np
from hypothesis import strategies as st

from ..core import Sub, check
from ..trk import CAMERAS, call_update, camera, counters, detection, same_actor, script, runs
from ..util import jitter

RULE = (
    "One to three trackers with generated counters (and sometimes ReID) run interleaved generated scripts. After every "
    "update: ids in each tracker are consecutive from 1 up to total_object_count without reuse, assigned when an object leaves "
    "initialization and never changed afterwards; objects still initializing have neither id nor global id; global ids "
    "differ between all objects of all trackers. Non-trivial: at least two trackers gave ids, or an id was given after "
    "an object with an earlier id had disappeared."
)


@st.composite
def case_(draw):
    k = draw(st.integers(1, 3))
    trackers = []
    for _ in range(k):
        hcm, delay = draw(counters(6))
        trackers.append({"hcm": hcm, "delay": delay, "reid": draw(st.one_of(st.none(), st.none(), st.integers(0, 5)))})
    n = 4
    frames = draw(st.one_of(runs(n, max_runs=8, max_len=8), script(n, max_frames=25)))[:60]
    order = draw(st.lists(st.integers(0, k - 1), min_size=len(frames), max_size=len(frames)))
    # spurious detections, each at a place of its own: [frames of them, detections in each]
    noise = draw(st.one_of(st.just([0, 0]), st.just([0, 0]), st.tuples(st.integers(1, 12), st.integers(1, 6)).map(list)))
    return {"trackers": trackers, "frames": frames, "order": order, "both": draw(st.booleans()), "noise": noise, "cam": draw(CAMERAS), "npts": draw(st.sampled_from([1, 1, 1, 2, 6, 20])), "labels": draw(st.integers(0, 2))}


def run(case, rec):
    from norfair import Tracker

    ts = []
    for c in case["trackers"]:
        kw = {}
        if c["reid"] is not None:
            kw = dict(reid_distance_function=lambda new, old: 0.25 if new.last_detection.data[0] == old.last_detection.data[0] else 10.0,
                      reid_distance_threshold=1.0, reid_hit_counter_max=c["reid"])
        ts.append(Tracker(same_actor, 1.0, hit_counter_max=c["hcm"], initialization_delay=c["delay"], **kw))
    keep = []  # every object ever seen, so that python ids are never reused
    info = [dict() for _ in ts]  # id(obj) -> (obj, id, global_id)
    global_owner = {}
    given = [set() for _ in ts]
    givers = set()
    inits = [dict() for _ in ts]  # initializing_id -> object
    total = [0] * len(ts)
    noise_frames, noise_dets = case.get("noise", [0, 0])
    spurious = 10
    for f, (mode, period, actors) in enumerate(case["frames"]):
        sel = range(len(ts)) if case["both"] else [case["order"][f] % len(ts)]
        for k in sel:
            t = ts[k]
            p = min(period, case["trackers"][k]["hcm"])
            dets = [detection([[1000.0 * a + jitter(a, f, k), 0]] * case.get("npts", 1), data=(a, f), label=None if not case.get("labels") else "class %d" % (a % case["labels"])) for a in actors]
            if f < noise_frames:
                for _ in range(noise_dets):
                    spurious += 1
                    dets.append(detection([[1000.0 * spurious, 0]] * case.get("npts", 1), data=(spurious, f)))
                mode = 0
            ret = call_update(t, mode, dets, p, **camera(case, f))
            before_total = sum(1 for v in info[k].values() if v[1] is not None)
            for o in list(t.tracked_objects) + list(ret):
                prev = info[k].get(id(o))
                if prev is None:
                    keep.append(o)
                elif prev[1] is not None:
                    check(o.id == prev[1], "an object's id changed from %r to %r", prev[1], o.id)
                    check(o.global_id == prev[2], "an object's global id changed from %r to %r", prev[2], o.global_id)
                check((o.id is None) == (o.global_id is None), "id %r but global id %r", o.id, o.global_id)
                info[k][id(o)] = (o, o.id, o.global_id)
            # objects merged into others by ReID are not in the tracker any more, they may have got an id on the way
            for key, (o, i, g) in list(info[k].items()):
                if i is None:
                    info[k][key] = (o, o.id, o.global_id)
                else:
                    check((o.id, o.global_id) == (i, g), "an object's ids changed from %r to %r", (i, g), (o.id, o.global_id))
            check(t.total_object_count >= total[k], "total_object_count went from %r to %r", total[k], t.total_object_count)
            total[k] = t.total_object_count
            last_init = max(inits[k], default=0)
            for o in t.tracked_objects:
                ii = o.initializing_id
                if inits[k].get(ii) is o:
                    continue
                check(isinstance(ii, int) and ii > last_init and ii not in inits[k], "initializing id %r given after %r", ii, sorted(inits[k]))
                inits[k][ii] = o
            if len(inits[k]) > 16:
                rec.tag("many initializing ids")
            for o in ret:
                check(o.id is not None and o.global_id is not None, "a returned object has id %r, global id %r", o.id, o.global_id)
            by_id = {}
            for o, i, g in info[k].values():
                if i is None:
                    continue
                check(isinstance(i, int) and isinstance(g, int), "ids are %r and %r", i, g)
                check(i not in by_id, "id %r belongs to two objects", i)
                by_id[i] = o
                owner = global_owner.setdefault(g, o)
                check(owner is o, "global id %r belongs to two objects", g)
            if case["trackers"][k]["reid"] is None:
                check(sorted(by_id) == list(range(1, len(by_id) + 1)), "ids given so far are %s", sorted(by_id))
            check(t.total_object_count == len(by_id), "total_object_count is %r after %d ids", t.total_object_count, len(by_id))
            fresh = [i for i in by_id if i not in given[k]]
            check(not fresh or min(fresh) > max(given[k], default=0), "id %s given after %s", sorted(fresh), sorted(given[k]))
            given[k].update(fresh)
            check(t.current_object_count == len(ret), "current_object_count is %r, %d objects returned", t.current_object_count, len(ret))
            check(len({o.id for o in ret}) == len(ret), "two returned objects share an id")
            if len(by_id) > before_total:
                givers.add(k)
                # newer ids are larger by construction; was an earlier one gone already?
                alive = {id(o) for o in t.tracked_objects}
                if any(id(o) not in alive for o in by_id.values()):
                    rec.nontrivial = True
                    rec.tag("id given after a removal")
    if len(givers) > 1:
        rec.nontrivial = True
        rec.tag("several trackers gave ids")
    if any(c["reid"] is not None for c in case["trackers"]):
        rec.tag("with reid")


@st.composite
def many_case(draw):
    frames = draw(st.integers(1, 4))
    return {"trackers": draw(st.integers(1, 6)), "dets": draw(st.integers(50, 600 if frames == 1 else 260)), "frames": frames}


class StillFactory:
    """A cheap filter for crowds."""

    def create_filter(self, initial_detection):
        n = initial_detection.shape[0]

        class Still:
            dim_z = 2 * n
            x = np.vstack([initial_detection.reshape(-1, 1), np.zeros((2 * n, 1))])

            def predict(self):
                pass

            def update(self, z, R=None, H=None):
                pass

        return Still()


def run_many(case, rec):
    """Crowds: thousands of objects, each in a place of its own."""
    from norfair import Detection, Tracker

    seen = set()
    pts = np.zeros((1, 2))
    for k in range(case["trackers"]):
        t = Tracker("cityblock", 1.0, hit_counter_max=3, initialization_delay=0, filter_factory=StillFactory(), past_detections_length=0)
        n = case["dets"]
        ret = t.update([Detection(pts + 10 * i) for i in range(n)])
        check(len(ret) == n, "%d objects returned for %d detections", len(ret), n)
        for o in ret:
            check(o.global_id not in seen, "global id %r given twice", o.global_id)
            seen.add(o.global_id)
        check(t.total_object_count == n and t.current_object_count == n, "counts %r and %r after %d objects", t.total_object_count, t.current_object_count, n)
        check(sorted(o.id for o in ret) == list(range(1, n + 1)), "ids of %d objects are not 1 to %d", n, n)
        was = {id(o): (o, o.id, o.global_id) for o in ret}
        for f in range(1, case.get("frames", 1)):
            # one in three is missed, a few are new
            ret = t.update([Detection(pts + 10 * i) for i in range(n + 5 * f) if i % 3 != f - 1 or i >= n])
            check(len(ret) == n + 5 * f, "%d objects returned, expected %d", len(ret), n + 5 * f)
            for o in ret:
                if id(o) in was:
                    check(was[id(o)][1:] == (o.id, o.global_id), "ids changed from %r to %r", was[id(o)][1:], (o.id, o.global_id))
                else:
                    check(o.global_id not in seen, "global id %r given twice", o.global_id)
                    seen.add(o.global_id)
                    was[id(o)] = (o, o.id, o.global_id)
            check(sorted(o.id for o in ret) == list(range(1, n + 5 * f + 1)), "ids of %d objects are %s", len(ret), sorted(o.id for o in ret)[-5:])
            n_now = n + 5 * f
            check(t.total_object_count == n_now and t.current_object_count == n_now, "counts %r and %r after %d objects", t.total_object_count, t.current_object_count, n_now)
    rec.nontrivial = len(seen) > 1000
    rec.tag("over 1000 objects" if len(seen) > 1000 else "a crowd")


SUBS = [
    Sub("identity", case_, run, 3500, 80000),
    Sub("many", many_case, run_many, 40, 400, [{"trackers": 200, "dets": 560}]),
]
