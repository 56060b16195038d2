"""Ignored points: a point whose score does not exceed the threshold leaves no trace."""
import numpy as np
from hypothesis import strategies as st

from ..core import Sub, check
from ..trk import call_update, detection, filter_factory
from ..util import check_near, jitter

RULE = (
    "metamorphic: the same history (of up to 40 objects or 300 frames) is tracked twice, the second time with generated garbage (finite, NaN or infinite) as coordinates of every point "
    "whose score does not exceed the threshold; detected points must have the same estimate, velocity and liveness. "
    "model: after every match each point is checked on its own: first seen -> exactly at its coordinates with zero "
    "velocity, ignored -> exactly the predicted position with unchanged velocity, not matched at all -> prediction. "
    "Non-trivial: an object that was already seen had an ignored point in a match and a point was first seen later than "
    "the object was created."
)

SC = [0.0, 0.25, 0.5, 0.75, 1.0]


@st.composite
def case_(draw):
    npts = draw(st.integers(1, 4))
    dim = draw(st.sampled_from([2, 2, 3]))
    fr = st.tuples(
        st.sampled_from([0, 0, 0, 0, 1]), st.integers(1, 2),
        st.lists(st.integers(-30, 30), min_size=npts * dim, max_size=npts * dim),
        st.one_of(st.none(), st.lists(st.integers(0, 4), min_size=npts, max_size=npts), st.lists(st.integers(0, 4), min_size=npts, max_size=npts)),
        st.lists(st.sampled_from([0, 0, 7, -500, 100000, -3, 0, 7, "nan", "inf", "-inf"]), min_size=npts * dim, max_size=npts * dim),
    ).map(list)
    return {
        "npts": npts, "dim": dim, "frames": draw(st.lists(fr, min_size=2, max_size=12)), "dthr": draw(st.integers(0, 3)),
        "filter": draw(st.sampled_from([["opt"], ["opt"], ["no"], ["fpy"], ["fpy", 1.0, 0.5, 2.0], ["opt", 1.0, 0.3, 5, 0.5, 2]])),
    }


def run(case, rec):
    from norfair import Tracker

    base, dim = case["npts"], case["dim"]
    rep, crowd = case.get("rep", 1), case.get("crowd", 1)
    npts = base * rep
    dthr = SC[case["dthr"]]
    rec.tag(case["filter"][0])

    def make():
        return Tracker(lambda d, o: 0.25 if d.data == o.last_detection.data else 9.0, 1.0, hit_counter_max=50, initialization_delay=0,
                       detection_threshold=dthr, filter_factory=filter_factory(case["filter"]))

    t, u = make(), make()
    seen, old = {}, {}
    late, ignored = False, False
    # FilterPy multiplies by the inverse of a matrix: rounding is allowed there
    tol = 1e-9 if case["filter"][0] == "fpy" else 1e-12
    if rep > 1:
        rec.tag("many points")
    if crowd > 1:
        rec.tag("several objects")
    frames = case["frames"] * case.get("loops", 1)
    for f, (miss, period, c, sc, garbage) in enumerate(frames):
        if f == 0:
            period = 10  # survive the misses
        made = {}
        for g in range(crowd):
            # many points, the scores of each group one step further than those of the last
            mine = None if sc is None or (g + f) % 5 == 4 else [(v + g + r * (1 + (r * base + k) // 7)) % 5 for r in range(rep) for k, v in enumerate(sc)]
            pts = np.array([v + jitter(f, k, g) if g else v + jitter(f, k) for k, v in enumerate(c * rep)]).reshape(npts, dim)
            if f < case.get("late", 0):
                # every other point remains hidden for long
                mine = [(4 if mine is None else mine[k]) if k % 2 == 0 else 0 for k in range(npts)]
            scores = None if mine is None else [SC[v] for v in mine]
            over = [True] * npts if scores is None else [s > dthr for s in scores]
            alt = pts.copy()
            dirt = np.array([float(v) for v in garbage * rep]).reshape(npts, dim)
            for k in range(npts):
                if not over[k]:
                    alt[k] += dirt[k]
            if not (miss if g % 3 != 1 else f % 7 == 6):
                made[g] = (detection(pts, scores, data=g), detection(alt, scores, data=g), pts, over)
        held = {o.last_detection.data: o for o in t.tracked_objects}
        old = {g: (np.array(o.estimate, float), np.array(o.estimate_velocity, float)) for g, o in held.items()}
        call_update(t, 0 if made else 1, [m[0] for m in made.values()], period)
        call_update(u, 0 if made else 1, [m[1] for m in made.values()], period)
        now = {o.last_detection.data: o for o in t.tracked_objects}
        other = {o.last_detection.data: o for o in u.tracked_objects}
        check(len(now) == len(t.tracked_objects) and len(other) == len(u.tracked_objects), "an object was duplicated")
        check(sorted(now) == sorted(other), "the two runs track different objects: %s and %s", sorted(now), sorted(other))
        check(set(made) <= set(now), "an object was lost")
        for g, o in now.items():
            p = other[g]
            est, vel = np.array(o.estimate, float), np.array(o.estimate_velocity, float)
            check(est.shape == (npts, dim) and vel.shape == (npts, dim), "estimate has shape %s, velocity %s", est.shape, vel.shape)
            _, _, pts, over = made.get(g, (None, None, None, None))
            if o is not held.get(g):
                seen[g] = list(over)
            else:
                pe, pv = old[g][0] + old[g][1], old[g][1]
                was = seen[g]
                for k in range(npts):
                    if over and over[k] and not was[k]:
                        late = True
                        if o.age > 60:
                            rec.tag("first seen after 60 frames")
                        check(est[k].tolist() == pts[k].tolist(), "frame %d: point %d is seen for the first time at %s, its estimate is %s", f, k, pts[k].tolist(), est[k].tolist())
                        check(vel[k].tolist() == [0.0] * dim, "frame %d: point %d is seen for the first time, its velocity is %s", f, k, vel[k].tolist())
                    elif was[k] and not (over and over[k]):
                        ignored = ignored or over is not None
                        check_near(est[k], pe[k], "frame %d: estimate of point %d, not detected in this frame (prediction expected)" % (f, k), tol, tol)
                        check_near(vel[k], pv[k], "frame %d: velocity of point %d, not detected in this frame" % (f, k), tol, tol)
                    elif not was[k]:
                        check_near(vel[k], np.zeros(dim), "frame %d: velocity of point %d, never detected so far" % (f, k), 0, 0)
                if over:
                    seen[g] = [a or b for a, b in zip(was, over)]
            e2, v2 = np.array(p.estimate, float), np.array(p.estimate_velocity, float)
            for k in range(npts):
                if seen[g][k]:
                    check_near(e2[k], est[k], "frame %d: the estimate of point %d depends on coordinates of ignored points" % (f, k), tol, tol)
                    check_near(v2[k], vel[k], "frame %d: the velocity of point %d depends on coordinates of ignored points" % (f, k), tol, tol)
            check(list(o.live_points) == list(p.live_points), "live points depend on coordinates of ignored points")
    if late:
        rec.tag("first seen late")
    if ignored:
        rec.tag("ignored point in a match")
    rec.nontrivial = late and ignored


@st.composite
def many_case(draw):
    c = draw(case_())
    c["rep"] = draw(st.integers(2, 12 if c["filter"][0] == "fpy" else 60))
    return c


@st.composite
def crowd_case(draw):
    """Several objects at once."""
    c = draw(case_())
    c["crowd"] = draw(st.sampled_from([2, 3, 12, 40]))
    c["rep"] = draw(st.sampled_from([1, 2, 2]))
    c["loops"] = draw(st.sampled_from([1, 2, 5])) if c["crowd"] < 12 else 1
    return c


@st.composite
def long_case(draw):
    """Hundreds of frames, points that are hidden for most of them."""
    c = draw(case_())
    c["crowd"], c["rep"] = draw(st.sampled_from([1, 1, 2])), draw(st.sampled_from([1, 2]))
    c["late"] = draw(st.sampled_from([20, 40, 70, 101, 110, 130, 160, 210, 257, 300]))
    c["loops"] = (c["late"] + 30) // len(c["frames"]) + 1
    return c


REG = [
    # NaN coordinates of an ignored point used to spread, in the FilterPy filter to all points
    {"npts": 2, "dim": 2, "frames": [[0, 1, [1, 1, 5, 5], [4, 4], [0] * 4], [0, 1, [2, 2, 6, 6], [4, 0], [0, 0, "nan", "inf"]], [0, 1, [3, 3, 7, 7], [4, 4], [0] * 4]],
     "dthr": 0, "filter": ["opt"]},
    {"npts": 2, "dim": 2, "frames": [[0, 1, [1, 1, 5, 5], [4, 0], [0, 0, "nan", 0]], [0, 1, [2, 2, 6, 6], [4, 0], [0] * 4]], "dthr": 0, "filter": ["fpy"]},
    # two points, the second one seen later: used to snap the wrong coordinates
    {"npts": 2, "dim": 2, "frames": [[0, 1, [1, 1, 0, 0], [4, 0], [0] * 4], [0, 1, [2, 2, 9, 9], [4, 4], [0] * 4], [0, 1, [3, 3, 9, 10], [4, 4], [0] * 4]],
     "dthr": 0, "filter": ["opt"]},
    {"npts": 3, "dim": 2, "frames": [[0, 1, [1, 1, 0, 0, 0, 0], [4, 0, 0], [0] * 6], [0, 1, [2, 2, 0, 0, 9, 9], [4, 0, 4], [0] * 6],
                                     [0, 1, [3, 3, 5, 5, 9, 10], [4, 4, 4], [0] * 6]], "dthr": 0, "filter": ["fpy"]},
]
SUBS = [Sub("ignored", case_, run, 5000, 100000, REG), Sub("many", many_case, run, 300, 8000), Sub("crowd", crowd_case, run, 240, 5000), Sub("long", long_case, run, 240, 5000)]
