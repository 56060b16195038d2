"""HomographyTransformationGetter: recovers the homography, accumulates it, survives too few points."""
import numpy as np
from hypothesis import strategies as st

from ..core import Discard, Sub, check
from ..util import check_near, jitter

RULE = (
    "Sequences of point sets related by a known near-identity homography, with 0-30% outliers, fed to one getter (RANSAC, "
    "LMEDS, least squares); the returned transformation must map points like the composition of the homographies since the "
    "first reference frame, an update is asked for exactly when the share of inliers is below the threshold, calls with fewer "
    "than four points (or None, or points on a line that define no homography) return (True, last reference transformation or None). parameters: point sets with noise and outliers of all sizes and generated parameters; "
    "the transformation and the request for an update are those of cv2.findHomography with these parameters. Non-trivial: a reference update "
    "followed by another successful estimation, or parameters that give another transformation than the default ones."
)
ASSUMPTIONS = ["cv2.findHomography is trusted (its RANSAC uses a fixed seed)"]


@st.composite
def case_(draw):
    c = st.integers(-8, 8)
    call = st.one_of(
        st.tuples(st.just("h"), st.lists(c, min_size=8, max_size=8), st.integers(16, 40), st.sampled_from([0, 0, 0, 10, 20, 30]), st.integers(0, 10 ** 6)).map(list),
        st.tuples(st.just("h"), st.lists(c, min_size=8, max_size=8), st.integers(16, 40), st.sampled_from([0, 0, 10, 20, 30]), st.integers(0, 10 ** 6)).map(list),
        st.tuples(st.just("h"), st.lists(c, min_size=8, max_size=8), st.sampled_from([4, 4, 5, 6]), st.just(0), st.integers(0, 10 ** 6)).map(list),
        st.tuples(st.just("few"), st.integers(0, 3), st.booleans()).map(list),
        st.tuples(st.just("line"), st.integers(4, 12), st.tuples(st.integers(0, 300), st.integers(0, 300), st.integers(-3, 3), st.integers(-3, 3)).map(list),
                  st.tuples(st.integers(-9, 9), st.integers(-9, 9)).map(list)).map(list),
    )
    return {"method": draw(st.sampled_from(["default", "default", "ransac", "lmeds", "ls"])), "thr": draw(st.sampled_from([0.9, 0.9, 0.75, 0.5, 1.01, 0.0])),
            "calls": draw(st.lists(call, min_size=1, max_size=6)), "f32": draw(st.booleans())}


def hom(c):
    return np.array([[1 + c[0] / 200, c[1] / 200, c[2] * 3], [c[3] / 200, 1 + c[4] / 200, c[5] * 3], [c[6] / 80000, c[7] / 80000, 1]])


def apply(H, p):
    q = np.hstack([p, np.ones((len(p), 1))]) @ H.T
    return q[:, :2] / q[:, 2:]


PROBE = np.array([[0.0, 0], [600, 0], [0, 400], [600, 400], [300, 200], [100, 333]])


def run(case, rec):
    import cv2
    from norfair.camera_motion import HomographyTransformation, HomographyTransformationGetter

    method, thr = case["method"], case["thr"]
    if method == "default":
        g = HomographyTransformationGetter(proportion_points_used_threshold=thr) if thr != 0.9 else HomographyTransformationGetter()
    else:
        g = HomographyTransformationGetter(method={"ransac": cv2.RANSAC, "lmeds": cv2.LMEDS, "ls": 0}[method], proportion_points_used_threshold=thr)
    rec.tag(method)
    data = None
    past = []
    for n, call in enumerate(case["calls"]):
        if call[0] == "few":
            k, none = call[1:]
            pts = np.arange(2.0 * k).reshape(k, 2)
            r = g(None, None) if none else g(pts, pts + 1)
            check(isinstance(r, tuple) and len(r) == 2, "the getter returned %r", r)
            check(bool(r[0]) is True, "too few points, but no update of the reference is asked for")
            rec.tag("few")
            if data is None:
                check(r[1] is None, "a transformation without any points: %r", r[1])
            else:
                rec.tag("few after an update")
                check(isinstance(r[1], HomographyTransformation), "the getter returned %r", r[1])
                check_near(r[1].abs_to_rel(PROBE), apply(data, PROBE), "with too few points, the transformation to the reference frame", 0, 2.0 + 0.7 * n)
            continue
        if call[0] == "line":
            # points that are all on a line (or the same): no homography follows from them
            _, k, (x, y, dx, dy), move = call
            prev = np.array([[x + i * dx, y + i * dy] for i in range(k)], np.float32)
            curr = prev + np.float32(move)
            if cv2.findHomography(prev, curr, method={"default": cv2.RANSAC, "ransac": cv2.RANSAC, "lmeds": cv2.LMEDS, "ls": 0}[method], ransacReprojThreshold=3, maxIters=2000, confidence=0.995)[0] is not None:
                continue
            r = g(curr, prev)
            check(isinstance(r, tuple) and len(r) == 2 and bool(r[0]) is True, "points on a line give %r, not a request for another reference", r)
            check((r[1] is None) == (data is None), "points on a line give %r", r[1])
            rec.tag("points on a line")
            if data is not None:
                rec.tag("points on a line after an update")
                check_near(r[1].abs_to_rel(PROBE), apply(data, PROBE), "with points on a line, the transformation to the reference frame", 0, 2.0 + 0.7 * n)
            continue
        _, c, npts, share, seed = call
        if method == "ls":
            share = 0
        if method == "lmeds" and npts < 8:
            npts = 16  # the median of a handful of residuals says nothing
        H = hom(c)
        if npts < 8:
            # few points, well spread
            base = np.array([[0, 0], [600, 0], [0, 400], [600, 400], [300, 170], [170, 230.0]])[:npts]
            prev = base + np.array([[30 * jitter(seed, i, 1), 30 * jitter(seed, i, 2)] for i in range(npts)])
            rec.tag("%d points" % npts)
        else:
            prev = np.array([[((i % 7) + 0.2 + 0.6 * jitter(seed, i, 1)) * 600 / 7, ((i // 7) + 0.2 + 0.6 * jitter(seed, i, 2)) * 400 / 6] for i in range(npts)])
        curr = apply(H, prev)
        nout = npts * share // 100
        for i in range(nout):
            j = (i * 2 + seed) % npts if npts % 2 == 0 else (i * 3 + seed) % npts
            a = 6.28 * jitter(seed, i, 3)
            curr[j] += (25 + 30 * jitter(seed, i, 4)) * np.array([np.cos(a), np.sin(a)])
        err = np.hypot(*(curr - apply(H, prev)).T)
        inl = int((err < 1).sum())
        dtype = np.float32 if case["f32"] else float
        prev, curr = prev.astype(dtype), curr.astype(dtype)
        kp, kc = prev.copy(), curr.copy()
        r = g(curr, prev)
        check(isinstance(r, tuple) and len(r) == 2, "the getter returned %r", r)
        upd, T = r
        check(isinstance(T, HomographyTransformation), "the getter returned %r", T)
        check(np.array_equal(prev, kp) and np.array_equal(curr, kc), "the getter changed its inputs")
        total = H if data is None else H @ data
        tol = 2.0 + 0.7 * n
        got = np.asarray(T.abs_to_rel(PROBE))
        check_near(got, apply(total, PROBE), "call %d: abs_to_rel" % n, 0, tol)
        check_near(T.rel_to_abs(got), PROBE, "call %d: rel_to_abs" % n, 0, 1e-4)
        want = inl / npts < thr
        check(bool(upd) == want, "call %d: update of the reference is %r, %d of %d points agree, threshold %s", n, bool(upd), inl, npts, thr)
        if data is not None:
            rec.nontrivial = True
        if want:
            data = total
            rec.tag("update")
        past.append((T, got.copy()))
    for T, got in past:
        check_near(T.abs_to_rel(PROBE), got, "a transformation returned earlier changed", 1e-12, 1e-9)


@st.composite
def params_(draw):
    call = st.tuples(st.lists(st.integers(-8, 8), min_size=8, max_size=8), st.integers(8, 40), st.integers(0, 60), st.sampled_from([0, 1, 3, 6, 12]), st.integers(0, 10 ** 6)).map(list)
    return {
        "method": draw(st.sampled_from([None, "ransac", "ransac", "lmeds", "ls"])), "reproj": draw(st.sampled_from([None, 1, 2, 5, 10])),
        "iters": draw(st.sampled_from([None, 1, 3, 10, 50])), "confidence": draw(st.sampled_from([None, 0.1, 0.5, 0.9, 0.9999])),
        "thr": draw(st.sampled_from([None, 0.1, 0.3, 0.5, 0.7, 0.95])), "calls": draw(st.lists(call, min_size=1, max_size=4)),
        "loops": draw(st.sampled_from([1, 1, 1, 1, 1, 12])), "many": draw(st.sampled_from([1, 1, 1, 1, 1, 1, 25])),
    }


def run_params(case, rec):
    """Noise and outliers of all sizes: every parameter has the meaning it has in cv2.findHomography."""
    import cv2
    from norfair.camera_motion import HomographyTransformationGetter

    cvm = {None: cv2.RANSAC, "ransac": cv2.RANSAC, "lmeds": cv2.LMEDS, "ls": 0}[case["method"]]
    kw = {}
    for k, name in (("reproj", "ransac_reproj_threshold"), ("iters", "max_iters"), ("confidence", "confidence"), ("thr", "proportion_points_used_threshold")):
        if case[k] is not None:
            kw[name] = case[k]
    if case["method"] is not None:
        kw["method"] = cvm
    g = HomographyTransformationGetter(**kw)
    reproj, iters, conf, thr = [d if case[k] is None else case[k] for k, d in (("reproj", 3), ("iters", 2000), ("confidence", 0.995), ("thr", 0.9))]
    data = None
    calls = []
    for k in range(case.get("loops", 1)):
        # there and back again
        calls += [[[(-1) ** k * v for v in c], npts, share if k < 4 else max(share, 12), noise if k == 0 else 0, seed + k] for c, npts, share, noise, seed in case["calls"][::(-1) ** k]]
    if len(calls) > 10:
        rec.tag("long")
    for n, (c, npts, share, noise, seed) in enumerate(calls):
        H = hom(c)
        npts *= case.get("many", 1) if n < 6 else 1
        prev = np.array([[600 * jitter(seed, i, 1), 400 * jitter(seed, i, 2)] for i in range(npts)])
        curr = apply(H, prev) + np.array([[noise * (2 * jitter(seed, i, 5) - 1), noise * (2 * jitter(seed, i, 6) - 1)] for i in range(npts)])
        for i in range(npts * share // 100):
            curr[i] = [600 * jitter(seed, i, 3), 400 * jitter(seed, i, 4)]
        M, used = cv2.findHomography(prev, curr, method=cvm, ransacReprojThreshold=reproj, maxIters=iters, confidence=conf)
        if M is None:
            r = g(curr.copy(), prev.copy())
            check(bool(r[0]) is True and (r[1] is None) == (data is None), "call %d: no homography, but %r", n, r)
            rec.tag("no homography")
            continue
        if not np.isfinite(M).all() or abs(np.linalg.det(M)) < 1e-3:
            raise Discard()
        total = M if data is None else M @ data
        if np.linalg.cond(total) > 1e9:
            raise Discard()
        upd, T = g(curr.copy(), prev.copy())
        part = used.sum() / len(used)
        check(bool(upd) == bool(part < thr), "call %d: update of the reference is %r, OpenCV uses %.3f of the points, threshold %s", n, bool(upd), part, thr)
        want = np.hstack([PROBE, np.ones((len(PROBE), 1))]) @ total.T
        got = np.asarray(T.abs_to_rel(PROBE))
        ok = np.abs(want[:, 2]) > 0.05
        check_near(got[ok], (want[:, :2] / want[:, 2:])[ok], "call %d: abs_to_rel, as OpenCV with these parameters" % n, 1e-6, 1e-6)
        if upd:
            data = total
        default = cv2.findHomography(prev, curr, method=cv2.RANSAC, ransacReprojThreshold=3, maxIters=2000, confidence=0.995)[0]
        if default is not None and not np.allclose(default, M, rtol=1e-3, atol=1e-5):
            rec.nontrivial = True
            rec.tag("parameters matter")
        rec.tag("method %s" % case["method"])


SUBS = [Sub("sequence", case_, run, 3000, 80000), Sub("parameters", params_, run_params, 1500, 30000)]
