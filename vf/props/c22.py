"""MotionEstimator on synthetic camera movements."""
import functools

import numpy as np
from hypothesis import strategies as st

from ..core import Sub, check
from ..util import check_near

RULE = (
    "Videos cut out of a textured world by a moving camera (random walks of whole pixels; zoom / rotation for homographies), "
    "optionally with an independently moving masked-out region and with featureless frames at the end; the transformation "
    "given for every frame must map frame coordinates to the coordinates of the first frame and back, within a pixel or so. "
    "The frame is left alone unless draw_flow is set, draw_flow and other estimators do not influence the estimate, and no "
    "frame (blank included) makes update raise; after frames without a transformation a translation estimate starts over. sampling: a scripted getter that keeps or "
    "replaces the reference, or raises, must be called once per frame with points that OpenCV finds in the reference frame for the given parameters and mask, and with where they are now. Non-trivial: "
    "the camera moves in at least three frames; or a script with different answers."
)
ASSUMPTIONS = ["cv2's feature tracking is trusted on high contrast textures moving at most 9 pixels per frame"]
W, H = 240, 180
SIZE = 700


@functools.lru_cache(maxsize=8)
def world(seed):
    import cv2

    rng = np.random.RandomState(seed)
    acc = np.zeros((SIZE, SIZE, 3))
    for cell, amp in ((90, 70), (40, 60), (18, 50), (8, 40)):
        k = SIZE // cell + 2
        a = rng.uniform(-1, 1, (k, k, 3)).astype(np.float32)
        inter = cv2.INTER_CUBIC if cell > 20 else cv2.INTER_LINEAR
        acc += amp * cv2.resize(a, (k * cell, k * cell), interpolation=inter)[:SIZE, :SIZE]
    return np.clip(acc * 0.8 + 128, 0, 255).astype(np.uint8)


@st.composite
def case_(draw):
    kind = draw(st.sampled_from(["trans", "trans", "homog-trans", "zoom"]))
    step = st.tuples(st.integers(-9, 9), st.integers(-9, 9), st.integers(-3, 3), st.integers(-3, 3)).map(list)
    steps = draw(st.lists(step, min_size=1, max_size=9))
    for k in range(draw(st.sampled_from([0, 0, 0, 0, 0, 0, 0, 3]))):
        # and back, and there again
        steps = steps + [[-v for v in s] for s in steps[::-1]][:9]
    return {"kind": kind, "seed": draw(st.integers(0, 5)), "steps": steps,
            "mask": draw(st.one_of(st.none(), st.tuples(st.integers(-6, 6), st.integers(-6, 6), st.integers(30, 110), st.integers(30, 90)).map(list))),
            "blank": draw(st.integers(0, 3)) if draw(st.integers(0, 3)) == 0 else 0, "max_points": draw(st.sampled_from([200, 150, 300])),
            "min_distance": draw(st.sampled_from([15, 10, 12])), "draw": draw(st.booleans())}


def render(case):
    """Yields (frame, mask, M) with M the 3x3 matrix from first frame coordinates to this frame's."""
    import cv2

    img = world(case["seed"])
    fg = world(case["seed"] + 1)
    x, y, ang, zoom = 250.0, 250.0, 0.0, 1.0
    first = None
    for n, (dx, dy, da, dz) in enumerate([[0, 0, 0, 0]] + case["steps"]):
        x, y = min(max(x + dx, 100), 400), min(max(y + dy, 100), 400)
        if case["kind"] == "zoom":
            ang += da * 0.004
            zoom *= 1 + dz * 0.004
            c, s = np.cos(ang) * zoom, np.sin(ang) * zoom
            cx, cy = x + W / 2, y + H / 2
            M = np.array([[c, -s, W / 2 - c * cx + s * cy], [s, c, H / 2 - s * cx - c * cy], [0, 0, 1.0]])
            frame = cv2.warpPerspective(img, M, (W, H), flags=cv2.INTER_LINEAR)
        else:
            M = np.array([[1.0, 0, -x], [0, 1, -y], [0, 0, 1]])
            frame = img[int(y):int(y) + H, int(x):int(x) + W].copy()
        if first is None:
            first = M
        mask = None
        if case["mask"] is not None:
            vx, vy, w, h = case["mask"]
            px = min(max(40 + n * vx, 0), W - w)
            py = min(max(35 + n * vy, 0), H - h)
            frame[py:py + h, px:px + w] = fg[100:100 + h, 100:100 + w]
            mask = np.ones((H, W), np.uint8)
            mask[max(py - 12, 0):py + h + 12, max(px - 12, 0):px + w + 12] = 0
        yield np.ascontiguousarray(frame), mask, M @ np.linalg.inv(first)


PROBE = np.array([[20.0, 20], [220, 20], [20, 160], [220, 160], [120, 90]])


def run(case, rec):
    from norfair.camera_motion import (
        CoordinatesTransformation, HomographyTransformationGetter, MotionEstimator, TranslationTransformationGetter,
    )

    def make(draw):
        kw = dict(max_points=case["max_points"], min_distance=case["min_distance"])
        if case["kind"] == "trans":
            kw["transformations_getter"] = TranslationTransformationGetter()
        elif draw:
            kw["transformations_getter"] = HomographyTransformationGetter()
        return MotionEstimator(draw_flow=draw, **kw)

    m, m2, m3 = make(False), make(True), make(False)
    rec.tag(case["kind"], "mask" if case["mask"] else "no mask")
    moved = 0
    frame = None
    past = []
    for n, (frame, mask, M) in enumerate(render(case)):
        keep = frame.copy()
        kmask = None if mask is None else mask.copy()
        T = m.update(frame) if mask is None else m.update(frame, mask)
        check(np.array_equal(frame, keep), "update changed the frame although draw_flow is off")
        check(mask is None or np.array_equal(mask, kmask), "update changed the mask")
        check(T is not None, "frame %d: no transformation", n)
        check(isinstance(T, CoordinatesTransformation), "frame %d: update returned %r", n, T)
        q = np.hstack([PROBE, np.ones((5, 1))]) @ M.T
        exp = q[:, :2] / q[:, 2:]
        got = np.asarray(T.abs_to_rel(PROBE))
        tol = (1.0 if case["kind"] == "trans" else 6.0) + 0.2 * n
        check_near(got, exp, "frame %d: abs_to_rel" % n, 0, tol)
        check_near(T.rel_to_abs(got), PROBE, "frame %d: rel_to_abs(abs_to_rel)" % n, 0, 1e-3)
        past.append((T, got.copy()))
        if case["draw"]:
            f2 = keep.copy()
            T2 = m2.update(f2, mask)
            check(T2 is not None, "frame %d: no transformation with draw_flow", n)
            check_near(T2.abs_to_rel(PROBE), got, "frame %d: draw_flow changes the estimate" % n, 0, 1e-6)
            if n:
                check(not np.array_equal(f2, keep), "frame %d: draw_flow draws nothing", n)
        if n % 2:
            m3.update(frame[::-1].copy())
        if n and np.abs(exp - PROBE).max() > 2:
            moved += 1
    for T, got in past:
        check_near(T.abs_to_rel(PROBE), got, "a transformation given for an earlier frame changed", 1e-9, 1e-9)
    for k in range(case["blank"]):
        rec.tag("blank")
        T = m.update(np.full((H, W, 3), 40 * k, np.uint8))
        check(T is None or isinstance(T, CoordinatesTransformation), "update returned %r on a blank frame", T)
    if case["blank"]:
        T = m.update(frame)
        check(T is None or isinstance(T, CoordinatesTransformation), "update returned %r after blank frames", T)
    if case["blank"] > 1 and case["kind"] == "trans":
        # frames without a transformation, twice: then everything starts over
        frames = [(f.copy(), mk) for f, mk, _ in render(case)]
        empty = np.full((H, W, 3), 90, np.uint8)
        for rounds in range(2):
            for f, mk in frames:
                m.update(f, mk)
            r = [m.update(empty) for _ in range(3)]
        if r[-1] is None:
            rec.tag("start over")
            fresh = make(False)
            fresh.update(empty)
            for n, (f, mk) in enumerate(frames[::-1]):
                a, b = m.update(f, mk), fresh.update(f, mk)
                check((a is None) == (b is None), "frame %d after featureless frames: %r, a new estimator gives %r", n, a, b)
                if a is not None:
                    check_near(a.abs_to_rel(PROBE), b.abs_to_rel(PROBE), "frame %d after featureless frames, against a new estimator" % n, 1e-9, 1e-9)
    rec.nontrivial = moved > 2


@st.composite
def sample_case(draw):
    step = st.tuples(st.integers(-4, 4), st.integers(-4, 4), st.sampled_from(["keep", "keep", "update", "update", "raise"]), st.integers(0, 3)).map(list)
    steps = draw(st.lists(step, min_size=2, max_size=8))
    for k in range(draw(st.sampled_from([0, 0, 0, 0, 0, 0, 6]))):
        steps = steps + [[-x, -y, todo, which] for x, y, todo, which in steps[-8:]]
    return {"seed": draw(st.integers(0, 5)), "steps": steps, "max_points": draw(st.sampled_from([None, 5, 20, 60, 300])),
            "min_distance": draw(st.sampled_from([None, 1, 8, 25, 40])), "block": draw(st.sampled_from([None, 2, 5, 9])), "quality": draw(st.sampled_from([None, 0.001, 0.1, 0.4])),
            "masks": draw(st.lists(st.tuples(st.integers(0, 200), st.integers(0, 150)).map(list), max_size=2)),
            "draw": draw(st.booleans()), "color": draw(st.one_of(st.none(), st.lists(st.integers(0, 255), min_size=3, max_size=3)))}


class ScriptedError(Exception):
    pass


_logs = {}


class Scripted:
    """A getter that records what it is given and does what the script says (its copies share both)."""

    def __init__(self, key):
        self.key = key
        self.called = 0

    def __call__(self, curr_pts, prev_pts):
        log = _logs[self.key]
        self.called += 1
        todo = log["script"][len(log["calls"])]
        tr = object() if todo != "raise" else None
        log["calls"].append((None if curr_pts is None else np.array(curr_pts), None if prev_pts is None else np.array(prev_pts), tr, self.called))
        if todo == "raise":
            raise ScriptedError()
        return todo == "update", tr


def run_sample(case, rec):
    """What a transformation getter is given: points of the reference frame, sampled as asked, and where they are now."""
    import cv2

    from norfair.camera_motion import MotionEstimator

    img = world(case["seed"])
    script = [s[2] for s in case["steps"]]
    key = "k"
    _logs[key] = {"script": script, "calls": []}
    kw = {}
    for k, name in (("max_points", "max_points"), ("min_distance", "min_distance"), ("block", "block_size"), ("quality", "quality_level")):
        if case[k] is not None:
            kw[name] = case[k]
    if case["draw"]:
        kw["draw_flow"] = True
    if case["color"] is not None:
        kw["flow_color"] = tuple(case["color"])
    m = MotionEstimator(transformations_getter=Scripted(key), **kw)
    maxp, mind, block, quality = [d if case[k] is None else case[k] for k, d in (("max_points", 200), ("min_distance", 15), ("block", 3), ("quality", 0.01))]
    x = y = 250
    ref = None  # position, gray frame, mask of the reference
    prev = None  # the points tracked since the reference was taken
    count = 0
    for n, (dx, dy, todo, which) in enumerate(case["steps"]):
        x, y = x + dx, y + dy
        frame = np.ascontiguousarray(img[y:y + H, x:x + W])
        clean = frame.copy()
        gray = cv2.cvtColor(clean, cv2.COLOR_BGR2GRAY)
        mask = None
        if which < len(case["masks"]):
            mx, my = case["masks"][which]
            mask = np.ones((H, W), np.uint8)
            mask[my:my + 60, mx:mx + 80] = 0
            mask[:, :25] = 0
        if ref is None:
            ref = (x, y, gray, mask)
        out = m.update(frame) if mask is None else m.update(frame, mask)
        calls = _logs[key]["calls"]
        check(len(calls) == n + 1, "frame %d: the getter was called %d times", n, len(calls))
        curr, pts, tr, times = calls[-1]
        count += 1
        check(times == count, "frame %d: the getter was called %d times since it was (re)started, expected %d", n, times, count)
        check(out is tr, "frame %d: update does not return the transformation of the getter (%s)", n, todo)
        feats = cv2.goodFeaturesToTrack(ref[2], maxCorners=maxp, qualityLevel=quality, minDistance=mind, blockSize=block, mask=ref[3])
        if feats is not None and pts is not None:
            feats = feats.reshape(-1, 2)
            check(pts.ndim == 2 and pts.shape[1] == 2 and curr.shape == pts.shape, "frame %d: points of shapes %s, %s", n, curr.shape, pts.shape)
            allowed = {tuple(p) for p in (feats if prev is None else prev).tolist()}
            given = [tuple(p) for p in pts.tolist()]
            check(set(given) <= allowed and len(set(given)) == len(given), "frame %d: the getter is given points that are no sample of the reference frame", n)
            check(len(given) >= 0.5 * len(allowed), "frame %d: only %d of %d points", n, len(given), len(allowed))
            d = np.array([x - ref[0], y - ref[1]])
            if np.abs(d).max() <= 9 and len(pts) >= 5:
                inner = (pts > 25).all(axis=1) & (pts < [W - 25, H - 25]).all(axis=1)
                off = np.abs(curr - (pts - d)).max(axis=1)[inner]
                if off.size >= 5:
                    check((off < 1).mean() >= 0.7, "frame %d: points do not move with the camera, by %s since the reference", n, (-d).tolist())
                    rec.tag("flow checked")
            prev = pts
            if prev is not None and todo == "keep":
                rec.tag("reference kept")
        if case["draw"]:
            changed = (frame != clean).any(axis=2)
            if pts is not None and len(pts) > 3:
                check(changed.any(), "frame %d: draw_flow draws nothing", n)
            if case["color"] is not None:
                check(bool((frame[changed] == case["color"]).all()), "frame %d: the flow is not drawn in the given color", n)
            if pts is not None and len(pts):
                near = np.full((H, W), np.inf)
                ys, xs = np.mgrid[0:H, 0:W]
                for a, b in zip(curr, pts):
                    v = b - a
                    t = np.clip(((xs - a[0]) * v[0] + (ys - a[1]) * v[1]) / max(float(v @ v), 1e-9), 0, 1)
                    near = np.minimum(near, np.hypot(xs - a[0] - t * v[0], ys - a[1] - t * v[1]))
                check(float(near[changed].max(initial=0)) < 8, "frame %d: something is drawn far from the flow", n)
        else:
            check(np.array_equal(frame, clean), "frame %d: update changed the frame although draw_flow is off", n)
        if todo != "keep":
            ref, prev = (x, y, gray, mask), None
        if todo == "raise":
            count = 0
            rec.tag("getter raised")
    del _logs[key]
    rec.nontrivial = len(set(script)) > 1 and len(case["steps"]) > 2


SUBS = [Sub("camera", case_, run, 1000, 12000), Sub("sampling", sample_case, run_sample, 600, 8000)]
