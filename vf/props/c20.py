"""TranslationTransformationGetter: mode of the binned flow, reference frame bookkeeping."""
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from ..core import Sub, check
from ..util import check_near

RULE = (
    "Sequences of point sets whose flow is k_i * bin_size plus less than 0.4 bins, in float32 and float64, fed to one getter; "
    "the returned transformation must be a most frequent binned flow plus the offset accumulated at the previous reference "
    "updates, an update is asked for exactly when the share of points at the mode is below the threshold (shares equal to the "
    "threshold included), and transformations returned earlier keep their meaning. Non-trivial: a reference update followed by "
    "more calls, with distinct flows in one call."
)
BINS = [0.2, 1.0, 0.5, 0.25, 2.0, 0.02, 16.0]
THRS = [Fraction(9, 10), Fraction(1, 2), Fraction(3, 4), Fraction(2, 3), Fraction(1), Fraction(0), Fraction(3, 5)]


@st.composite
def case_(draw):
    far = draw(st.sampled_from([6, 6, 6, 6, 60, 4000, 200000]))
    call = st.tuples(
        st.lists(st.tuples(st.integers(-far, far), st.integers(-far, far)).map(list), min_size=1, max_size=4),
        # which flow each point has
        st.lists(st.tuples(st.sampled_from([0, 0, 0, 0, 1, 2, 3]), st.integers(-3, 3), st.integers(-3, 3), st.integers(0, 300), st.integers(0, 300)).map(list), min_size=1, max_size=12),
    ).map(list)
    return {"bin": draw(st.integers(0, len(BINS) - 1)), "thr": draw(st.integers(0, len(THRS) - 1)), "default": draw(st.integers(0, 4)) == 0,
            "f32": draw(st.booleans()) and far < 1000, "calls": draw(st.lists(call, min_size=1, max_size=6)),
            # the calls again and again, and every point many times
            "loops": draw(st.sampled_from([1, 1, 1, 1, 5, 30])) if far < 20 else 1, "rep": draw(st.sampled_from([1, 1, 1, 1, 1, 30, 300]))}


def run(case, rec):
    from norfair.camera_motion import TranslationTransformation, TranslationTransformationGetter

    if case["default"]:
        b, thr = 0.2, Fraction(9, 10)
        g = TranslationTransformationGetter()
    else:
        b, thr = BINS[case["bin"]], THRS[case["thr"]]
        g = TranslationTransformationGetter(bin_size=b, proportion_points_used_threshold=float(thr))
    other = TranslationTransformationGetter(bin_size=b, proportion_points_used_threshold=1.0)
    dtype = np.float32 if case["f32"] else float
    base = (0, 0)
    probe = np.array([[0.0, 0.0], [10.0, -7.0]])
    past = []
    updates = 0
    rep = case.get("rep", 1)
    for n, (flows, points) in enumerate(case["calls"] * min(case.get("loops", 1), 2 if rep > 1 else 99)):
        points = points * rep
        prev, curr, bins = [], [], []
        for which, jx, jy, x, y in points:
            k = flows[which % len(flows)]
            bins.append(tuple(k))
            prev.append([x, y])
            curr.append([x + b * (k[0] + jx / 8), y + b * (k[1] + jy / 8)])
        prev, curr = np.array(prev, dtype), np.array(curr, dtype)
        kp, kc = prev.copy(), curr.copy()
        r = g(curr, prev)
        check(isinstance(r, tuple) and len(r) == 2, "the getter returned %r", r)
        upd, T = r
        check(isinstance(T, TranslationTransformation), "the getter returned %r", T)
        check(np.array_equal(prev, kp) and np.array_equal(curr, kc), "the getter changed its inputs")
        counts = {k: bins.count(k) for k in bins}
        top = max(counts.values())
        modes = [k for k in counts if counts[k] == top]
        got = np.asarray(T.abs_to_rel(probe), float)
        offs = got - probe
        check_near(offs[0], offs[1], "the transformation is not a translation", 1e-5, 1e-5)
        fit = [k for k in modes if np.abs(offs[0] - b * (np.array(k) + base)).max() <= 1e-3 * b + (1e-5 if case["f32"] else 1e-9) * np.abs(offs[0]).max()]
        check(len(fit) == 1, "call %d: translation %s, expected one of %s plus the accumulated %s", n, offs[0].tolist(),
              [[b * v for v in k] for k in modes], [b * v for v in base])
        check_near(T.rel_to_abs(got), probe, "rel_to_abs", 1e-5, 1e-5)
        want = Fraction(top, len(bins)) < thr
        check(bool(upd) == want, "call %d: update of the reference is %r, %d of %d points at the mode, threshold %s", n, bool(upd), top, len(bins), thr)
        if Fraction(top, len(bins)) == thr:
            rec.tag("share equal to the threshold")
        if len(modes) > 1:
            rec.tag("tie")
        if updates and len(counts) > 1:
            rec.nontrivial = True
        if want:
            base = (fit[0][0] + base[0], fit[0][1] + base[1])
            updates += 1
            rec.tag("update")
        past.append((T, got.copy()))
        other(curr + n, prev)
    for T, got in past:
        check_near(T.abs_to_rel(probe), got, "a transformation returned earlier changed", 1e-12, 1e-12)


SUBS = [Sub("sequence", case_, run, 5000, 150000)]
