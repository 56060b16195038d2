"""The default (optimized) filter is the textbook constant velocity Kalman filter."""
import numpy as np
from hypothesis import strategies as st

from ..core import Sub, check
from ..kf import ScalarCV, state
from ..trk import call_update
from ..util import check_near, jitter

RULE = (
    "direct: a filter made by OptimizedKalmanFilterFactory with generated parameters receives generated predict / update "
    "calls (masks through H, noise through R, or neither); tracker: the same through Tracker with score masks and missed "
    "frames. Positions and velocities must follow, coordinate by coordinate, a textbook 2x2 constant velocity filter whose "
    "covariance is propagated once per match. Non-trivial: at least two updates with a mask or a gap in between."
)
ASSUMPTIONS = ["R, Q > 0 and a valid initial covariance"]

pos = st.integers(1, 80).map(lambda v: v / 8)


@st.composite
def params(draw):
    if draw(st.integers(0, 3)) == 0:
        return None
    p, v = draw(pos), draw(pos)
    # |c| <= sqrt(p v)
    c = draw(st.integers(-8, 8)) / 8 * min(p, v)
    r, q = draw(pos), draw(st.integers(0, 40)) / 8
    # other units, or next to nothing known about the start
    unit = draw(st.sampled_from([1, 1, 1, 1, 1e-4, 1e4, 1e6]))
    start = draw(st.sampled_from([1, 1, 1, 1, 1e3, 1e5])) * unit
    return [r * unit, q * unit, p * start, c * start, v * start]


REPEAT = [1, 1, 1, 1, 1, 3, 6, 11]
LOOPS = [1, 1, 1, 1, 1, 1, 4, 16]  # the whole history again and again


def spread(values, rep, step=3):
    """The generated coordinates of a few points, continued to rep times as many."""
    return [v + step * i for i in range(rep) for v in values]


def spread_mask(mask, n, rep):
    return sum(mask << (n * i) for i in range(rep))


def factory(spec):
    from norfair.filter import OptimizedKalmanFilterFactory

    if spec is None:
        return OptimizedKalmanFilterFactory(), [4.0, 0.1, 10, 0, 1]
    r, q, p, c, v = spec
    return OptimizedKalmanFilterFactory(R=r, Q=q, pos_variance=p, pos_vel_covariance=c, vel_variance=v), spec


@st.composite
def direct_case(draw):
    npts, dim = draw(st.integers(1, 3)), draw(st.sampled_from([2, 2, 3]))
    n = npts * dim
    op = st.tuples(
        st.sampled_from(["predict", "update", "masked", "noise", "both"]), coords(n),
        st.integers(0, 2 ** n - 1), st.lists(st.integers(1, 40), min_size=n, max_size=n),
    ).map(list)
    return {"npts": npts, "dim": dim, "params": draw(params()), "x0": draw(st.lists(st.integers(-100, 100), min_size=n, max_size=n)),
            "ops": draw(st.lists(op, min_size=1, max_size=14)), "rep": draw(st.sampled_from(REPEAT)), "int": draw(st.integers(0, 3)) == 0, "bare": draw(st.integers(0, 3)) == 0,
            "loops": draw(st.sampled_from(LOOPS))}


def coords(n):
    """Coordinates; sometimes all of them zero or around it."""
    return st.one_of(*[st.lists(st.integers(-50, 50), min_size=n, max_size=n)] * 3, st.lists(st.sampled_from([0, 0, 0, 1, -1]), min_size=n, max_size=n), st.just([0] * n))


def repeated(case):
    """The case with the points written out."""
    rep, n = case.get("rep", 1), case["npts"] * case["dim"]
    case = dict(case, ops=case["ops"] * case.get("loops", 1))
    if rep == 1:
        return case
    ops = [[op[0], spread(op[1], rep), spread_mask(op[2], n, rep)] + [spread(x, rep, 0) for x in op[3:]] for op in case["ops"]]
    return dict(case, npts=case["npts"] * rep, x0=spread(case["x0"], rep), ops=ops)


def repeated_frames(case):
    rep = case.get("rep", 1)
    case = dict(case, frames=case["frames"] * case.get("loops", 1))
    if rep == 1:
        return case
    frames = [[m, spread(c, rep), None if s is None else spread(s, rep, 0)] + list(rest) for m, c, s, *rest in case["frames"]]
    return dict(case, npts=case["npts"] * rep, frames=frames)


def conditioning(spec):
    """How much larger than usual the rounding errors of a filter with these parameters may be."""
    if spec is None or len(spec) < 5:
        return 1.0
    r, q, p, c, v = spec
    return max(1.0, max(p, v) / r)


def run_direct(case, rec):
    if case.get("rep", 1) > 1:
        rec.tag("many points")
    case = repeated(case)
    npts, dim = case["npts"], case["dim"]
    n = npts * dim
    loose = conditioning(case["params"])
    if loose > 1000:
        rec.tag("vague start")
    offset = 0.0 if case.get("bare") else 0.25
    fac, (r, q, p, c, v) = factory(case["params"])
    x0 = np.array(case["x0"], int if case.get("int") else float).reshape(npts, dim)
    keep = x0.copy()
    f = fac.create_filter(x0)
    other = fac.create_filter(x0 + 1)
    ref = [ScalarCV(z, r, q, p, c, v) for z in case["x0"]]
    masked = 0
    scale = max(1.0, max(abs(z) for z in case["x0"]))
    for i, (op, z, mask, noise) in enumerate([["start", [], 0, []]] + case["ops"]):
        if op == "predict":
            f.predict()
            for k in ref:
                k.predict()
        elif op != "start":
            zz = np.array(z, float).reshape(n, 1) + offset
            H = R = None
            obs = [True] * n
            rr = [r] * n
            if op in ("masked", "both"):
                obs = [bool(mask >> k & 1) for k in range(n)]
                H = np.hstack([np.diag(np.array(obs, float)), np.zeros((n, n))])
                masked += 1
            if op in ("noise", "both"):
                rr = [v / 4 for v in noise]
                R = np.diag(rr)
            f.update(zz, R, H)
            for k in range(n):
                ref[k].update(z[k] + offset, obs[k], rr[k])
        x, vel = state(f, n)
        scale = max(scale, max(abs(k.x) for k in ref))
        check_near(x, [k.x for k in ref], "position after operation %d (%s)" % (i, op), 1e-9 * loose, 1e-9 * scale * loose)
        check_near(vel, [k.v for k in ref], "velocity after operation %d (%s)" % (i, op), 1e-9 * loose, 1e-9 * scale * loose)
        rec.tag(op)
    ox, ov = state(other, n)
    check(np.array_equal(ox, (keep + 1).ravel()) and not ov.any(), "filters made by one factory share state")
    check(np.array_equal(x0, keep), "create_filter changed the coordinates it was given")
    rec.nontrivial = masked > 0 and len(case["ops"]) > 2


@st.composite
def tracker_case(draw):
    npts, dim = draw(st.integers(1, 3)), draw(st.sampled_from([2, 2, 3]))
    fr = st.tuples(
        st.integers(0, 3), coords(npts * dim),
        st.one_of(st.none(), st.lists(st.integers(0, 2), min_size=npts, max_size=npts)), st.integers(1, 3),
    ).map(list)
    return {"npts": npts, "dim": dim, "params": draw(params()), "frames": draw(st.lists(fr, min_size=2, max_size=16)), "default": draw(st.booleans()),
            "rep": draw(st.sampled_from(REPEAT)), "int": draw(st.integers(0, 3)) == 0, "bare": draw(st.integers(0, 3)) == 0,
            "loops": draw(st.sampled_from(LOOPS))}


def follow(case, rec, make_ref, fac, use_default=False):
    from norfair import Detection, Tracker

    if case.get("rep", 1) > 1:
        rec.tag("many points")
    loose = conditioning(case.get("params"))
    case = repeated_frames(case)
    npts, dim = case["npts"], case["dim"]
    kw = {} if use_default else {"filter_factory": fac}
    t = Tracker(lambda d, o: 0.25, 1.0, hit_counter_max=1000, initialization_delay=0, detection_threshold=0.25, **kw)
    ref = seen = None
    gaps = 0
    for f, (miss, coords, sc, period) in enumerate(case["frames"]):
        if f == 0:
            miss, period = 1, 500
        if case.get("bare"):
            pts = np.array(coords, dtype=int if case.get("int") else float).reshape(npts, dim)
        elif case.get("int"):
            pts = np.array([v + (7 * f + 5 * k) % 4 for k, v in enumerate(coords)], dtype=int).reshape(npts, dim)
            rec.tag("integer points")
        else:
            pts = np.array([v + jitter(f, k) for k, v in enumerate(coords)]).reshape(npts, dim)
        scores = None if sc is None else [s / 2 for s in sc]
        over = [True] * npts if scores is None else [s > 0.25 for s in scores]
        call_update(t, f % 3 + 1 if miss == 0 else 0, [Detection(pts, None if scores is None else np.array(scores))] if miss else [], period)
        check(len(t.tracked_objects) == 1, "%d objects are tracked", len(t.tracked_objects))
        o = t.tracked_objects[0]
        if ref is None:
            ref = [make_ref(z) for z in pts.ravel()]
            seen = list(over)
        else:
            for k in ref:
                k.predict()
            if miss:
                for j, z in enumerate(pts.ravel()):
                    first = over[j // dim] and not seen[j // dim]
                    ref[j].update(z, over[j // dim])
                    if first:
                        ref[j].x = z
                    if not seen[j // dim]:
                        ref[j].v = 0.0
                seen = [a or b for a, b in zip(seen, over)]
                if not all(over):
                    gaps += 1
            else:
                gaps += 1
        check_near(np.asarray(o.estimate).ravel(), [k.x for k in ref], "estimate after frame %d" % f, 1e-8 * loose, 1e-7 * loose)
        check_near(np.asarray(o.estimate_velocity).ravel(), [k.v for k in ref], "velocity after frame %d" % f, 1e-8 * loose, 1e-7 * loose)
        check(np.asarray(o.estimate).shape == (npts, dim) and np.asarray(o.estimate_velocity).shape == (npts, dim), "wrong shape")
    rec.nontrivial = gaps > 0 and len(case["frames"]) > 3


def run_tracker(case, rec):
    default = case["default"] and case["params"] is None
    fac, (r, q, p, c, v) = factory(case["params"])
    rec.tag("default factory" if default else "own factory")
    follow(case, rec, lambda z: ScalarCV(z, r, q, p, c, v), fac, default)


SUBS = [Sub("direct", direct_case, run_direct, 5000, 100000), Sub("tracker", tracker_case, run_tracker, 2500, 50000)]
