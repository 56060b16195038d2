"""The filterpy based filter and the absence of a filter follow their definitions."""
import numpy as np
from hypothesis import strategies as st

from ..core import Sub, check
from ..kf import ClassicCV, Nothing, state
from ..util import check_near
from .c14 import LOOPS, REPEAT, coords, follow, repeated

RULE = (
    "FilterPyKalmanFilterFactory with generated R, Q, P and NoFilterFactory are driven directly (predict / masked update "
    "sequences) and through Tracker; positions and velocities must follow, coordinate by coordinate, a textbook constant "
    "velocity filter (P0 = diag(1, P), process noise diag(1, Q), noise R) respectively the last observed coordinates with "
    "zero velocity. Non-trivial: a mask or a gap lies between updates."
)

pos = st.integers(1, 80).map(lambda v: v / 8)


@st.composite
def spec(draw):
    kind = draw(st.sampled_from(["fpy", "fpy", "no"]))
    if kind == "no":
        return ["no"]
    if draw(st.integers(0, 3)) == 0:
        return ["fpy"]
    unit = draw(st.sampled_from([1, 1, 1, 1, 1e-3, 1e3, 1e4]))
    if draw(st.integers(0, 5)) == 0:
        tiny = st.sampled_from([0.0, 1e-9, 1e-6, 1e-4, 0.01, 1.0])
        return ["fpy", draw(pos), draw(tiny), draw(tiny)]
    return ["fpy", draw(pos) * unit, draw(pos) * draw(st.sampled_from([1, unit])), draw(pos) * draw(st.sampled_from([1, unit]))]


def factory(s):
    from norfair.filter import FilterPyKalmanFilterFactory, NoFilterFactory

    if s[0] == "no":
        return NoFilterFactory(), Nothing
    if len(s) == 1:
        return FilterPyKalmanFilterFactory(), lambda z: ClassicCV(z, 4.0, 0.1, 10.0)
    r, q, p = s[1:]
    return FilterPyKalmanFilterFactory(R=r, Q=q, P=p), lambda z: ClassicCV(z, r, q, p)


@st.composite
def direct_case(draw):
    npts, dim = draw(st.integers(1, 3)), draw(st.sampled_from([2, 2, 3]))
    n = npts * dim
    op = st.tuples(st.sampled_from(["predict", "update", "masked"]), coords(n), st.integers(0, 2 ** n - 1)).map(list)
    return {"npts": npts, "dim": dim, "spec": draw(spec()), "x0": draw(st.lists(st.integers(-100, 100), min_size=n, max_size=n)),
            "ops": draw(st.lists(op, min_size=1, max_size=12)), "rep": draw(st.sampled_from(REPEAT)), "int": draw(st.integers(0, 3)) == 0, "bare": draw(st.integers(0, 3)) == 0,
            "loops": draw(st.sampled_from(LOOPS))}


def run_direct(case, rec):
    case = repeated(case)
    npts, dim = case["npts"], case["dim"]
    n = npts * dim
    offset = 0.0 if case.get("bare") else 0.25
    fac, ref_of = factory(case["spec"])
    x0 = np.array(case["x0"], int if case.get("int") else float).reshape(npts, dim)
    keep = x0.copy()
    f = fac.create_filter(x0)
    other = fac.create_filter(x0 + 1)
    ref = [ref_of(z) for z in case["x0"]]
    masked = 0
    for i, (op, z, mask) in enumerate([["start", [], 0]] + case["ops"]):
        if op == "predict":
            f.predict()
            for k in ref:
                k.predict()
        elif op != "start":
            H = None
            obs = [True] * n
            if op == "masked":
                obs = [bool(mask >> k & 1) for k in range(n)]
                H = np.hstack([np.diag(np.array(obs, float)), np.zeros((n, n))])
                masked += 1
            f.update(np.array(z, float).reshape(n, 1) + offset, None, H)
            for k in range(n):
                ref[k].update(z[k] + offset, obs[k])
        x, vel = state(f, n)
        scale = max(1.0, max(abs(k.x) for k in ref))
        check_near(x, [k.x for k in ref], "position after operation %d (%s)" % (i, op), 1e-8, 1e-8 * scale)
        check_near(vel, [k.v for k in ref], "velocity after operation %d (%s)" % (i, op), 1e-8, 1e-8 * scale)
    ox, ov = state(other, n)
    check(np.array_equal(ox, (keep + 1).ravel()) and not ov.any(), "filters made by one factory share state")
    check(np.array_equal(x0, keep), "create_filter changed the coordinates it was given")
    rec.tag(case["spec"][0])
    rec.nontrivial = masked > 0 and len(case["ops"]) > 2


@st.composite
def tracker_case(draw):
    npts, dim = draw(st.integers(1, 3)), draw(st.sampled_from([2, 2, 3]))
    fr = st.tuples(
        st.integers(0, 3), coords(npts * dim),
        st.one_of(st.none(), st.lists(st.integers(0, 2), min_size=npts, max_size=npts)), st.integers(1, 3),
    ).map(list)
    return {"npts": npts, "dim": dim, "spec": draw(spec()), "frames": draw(st.lists(fr, min_size=2, max_size=12)),
            "rep": draw(st.sampled_from(REPEAT)), "int": draw(st.integers(0, 3)) == 0, "bare": draw(st.integers(0, 3)) == 0,
            "loops": draw(st.sampled_from(LOOPS))}


def run_tracker(case, rec):
    fac, ref_of = factory(case["spec"])
    rec.tag(case["spec"][0])
    follow(case, rec, ref_of, fac)


SUBS = [Sub("direct", direct_case, run_direct, 3000, 50000), Sub("tracker", tracker_case, run_tracker, 2000, 40000)]
