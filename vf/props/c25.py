"""Paths and AbsolutePaths: the trail of every object, fading, in frame or absolute coordinates."""
import numpy as np
from hypothesis import strategies as st

from ..core import Sub, check, fail
from ..trk import detection

RULE = (
    "Histories of several tracked objects (coming, going, moving; custom or default points of interest, colors, radius, "
    "attenuation 0..1, max_history 1..8, moving camera for AbsolutePaths) drawn frame after frame; every frame is compared, "
    "pixel by pixel within rounding, with a model that repaints the trail with plain OpenCV calls. Non-trivial: two objects "
    "with at least three points each, one of them missing in some frame."
)
W, H = 160, 120


def gradient(k):
    y, x = np.mgrid[0:H, 0:W]
    return np.stack([(x * 3 + y + k * 7) % 120, (x + y * 5) % 120 + 20, (x * y + k) % 120 + 10], axis=2).astype(np.uint8)


def close(got, exp, tol, what):
    check(isinstance(got, np.ndarray) and got.shape == exp.shape and got.dtype == exp.dtype, "%s: returned %r", what, getattr(got, "shape", got))
    d = np.abs(got.astype(int) - exp.astype(int)).max(axis=2)
    if (d > tol).any():
        ys, xs = np.where(d > tol)
        y, x = int(ys[0]), int(xs[0])
        fail("%s: %d pixels differ, e.g. (x=%d, y=%d) is %s, expected %s" % (what, len(ys), x, y, got[y, x].tolist(), exp[y, x].tolist()))


@st.composite
def case_(draw, absolute):
    npts = draw(st.integers(1, 3))
    n_obj = draw(st.sampled_from([3, 3, 3, 2, 2, 2, 3, 1, 11] * 2 + [24]))
    frame = st.tuples(
        st.lists(st.tuples(st.integers(0, 40), st.integers(0, 30), st.sampled_from([1, 1, 1, 0])).map(lambda v: list(v[:2]) if v[2] else None), min_size=n_obj, max_size=n_obj),
        st.tuples(st.integers(-15, 15), st.integers(-15, 15)).map(list),
        # scores: the points of an object may die
        st.sampled_from([0, 0, 0, 0, 1, 2, 2]),
    ).map(list)
    d = {"npts": npts, "n": n_obj, "frames": draw(st.lists(frame, min_size=draw(st.sampled_from([7, 6, 5, 3, 1])), max_size=9)),
         "color": draw(st.sampled_from([None, None, [9, 200, 255]])), "radius": draw(st.integers(1, 4)), "thick": draw(st.sampled_from([1, 2, -1] if not absolute else [1, 2, 3])),
         "custom": draw(st.booleans()), "hits": draw(st.sampled_from([2, 2, 1, 3, 4])), "phits": draw(st.sampled_from([1, 1, 4, 4]))}
    if draw(st.integers(0, 24)) == 0:
        # a long video: the same again and again
        d["frames"] = [[q, [(-1) ** k * v for v in move], die] for k in range(draw(st.sampled_from([4, 16]))) for q, move, die in d["frames"][::(-1) ** k]]
        if len(d["frames"]) > 60 and n_obj > 4:
            d["frames"] = d["frames"][:60]
    if absolute and draw(st.integers(0, 11)) == 0:
        d["n"] = 2
        d["frames"] = draw(st.lists(st.tuples(st.lists(st.tuples(st.integers(0, 40), st.integers(0, 30)).map(list), min_size=2, max_size=2), st.just([1, -1]), st.just(0)).map(list),
                                    min_size=24, max_size=26))
        d["hist"], d["homog"] = draw(st.sampled_from([None, None, 15, 30])), draw(st.booleans())
        return d
    if absolute:
        d["hist"] = draw(st.one_of(st.none(), st.integers(1, 8)))
        d["homog"] = draw(st.booleans())
        d["still"] = draw(st.sampled_from([False, False, False, True]))
    else:
        d["att"] = draw(st.sampled_from([0.1, 0.01, 0.5, 0.0, 1.0, None]))
    return d


def interest(pts):
    """The custom points of interest: the first and the last point."""
    return np.array([pts[0], pts[-1] + 3])


def make_points(case, pos):
    return [[pos[0] * 4 + 3 * k, pos[1] * 4 + 5 * k] for k in range(case["npts"])]


def make_tracker(hits=2, phits=1):
    from norfair import Tracker
    from norfair.filter import NoFilterFactory

    def same(d, o):
        return 0.0 if d.data == o.last_detection.data else 1.0

    return Tracker(same, 0.5, hit_counter_max=hits, initialization_delay=0, pointwise_hit_counter_max=phits, filter_factory=NoFilterFactory())


def run_paths(case, rec):
    import cv2
    from norfair.drawing import Palette, Paths

    kw = {"radius": case["radius"], "thickness": case["thick"]}
    if case["color"] is not None:
        kw["color"] = tuple(case["color"])
    if case["att"] is not None:
        kw["attenuation"] = case["att"]
    if case["custom"]:
        kw["get_points_to_draw"] = interest
    p = Paths(**kw)
    other = Paths(radius=9)
    att = 0.01 if case["att"] is None else case["att"]
    t = make_tracker(case["hits"], case["phits"])
    mask = np.zeros((H, W, 3), np.uint8)
    counts = {}
    gaps = False
    earlier = []
    for k, (poss, _, _) in enumerate(case["frames"]):
        objs = t.update([detection(make_points(case, q), data=i) for i, q in enumerate(poss) if q is not None])
        frame = gradient(k)
        got = p.draw(frame, objs)
        check(np.array_equal(frame, gradient(k)), "Paths.draw changed the frame it was given")
        other.draw(frame[::-1].copy(), objs)
        # every point of the trail fades by the same factor at each frame
        mask = np.floor(mask.astype(float) * (1 - att) + 1e-9).astype(np.uint8)
        for o in objs:
            pts = np.asarray(o.estimate, float)
            pts = interest(pts) if case["custom"] else [pts.mean(axis=0)]
            col = tuple(case["color"]) if case["color"] is not None else tuple(Palette.choose_color(o.id))
            for q in pts:
                cv2.circle(mask, (int(q[0]), int(q[1])), case["radius"], col, case["thick"])
            counts[o.id] = counts.get(o.id, 0) + 1
        gaps = gaps or any(c and i not in [o.id for o in objs] for i, c in counts.items())
        exp = np.minimum(frame.astype(int) + mask, 255).astype(np.uint8)
        close(got, exp, 0 if att in (0.0, 1.0) else min(k + 1, 3), "frame %d" % k)
        earlier.append((got, got.copy()))
    for got, keep in earlier:
        check(np.array_equal(got, keep), "a frame returned earlier changed")
    rec.tag("att=%s" % att)
    rec.nontrivial = sum(1 for c in counts.values() if c > 2) > 1 and gaps


def run_abs(case, rec):
    import cv2
    from norfair.camera_motion import HomographyTransformation, TranslationTransformation
    from norfair.drawing import AbsolutePaths, Palette

    kw = {"radius": case["radius"], "thickness": case["thick"]}
    if case["color"] is not None:
        kw["color"] = tuple(case["color"])
    hist = 20
    if case["hist"] is not None:
        hist = kw["max_history"] = case["hist"]
    if case["custom"]:
        kw["get_points_to_draw"] = interest
    drawer = AbsolutePaths(**kw)
    other = AbsolutePaths()
    alphas = [0.99 + (0.01 - 0.99) * i / max(hist - 1, 1) for i in range(hist)]
    t = make_tracker(case["hits"], case["phits"])
    past = {}
    cam = np.zeros(2)
    gaps = False
    for k, (poss, move, die) in enumerate(case["frames"]):
        cam = cam + (np.zeros(2) if case.get("still") else move)
        T = TranslationTransformation(-cam)
        if case["homog"]:
            T = HomographyTransformation(np.array([[1, 0, -cam[0]], [0, 1, -cam[1]], [0, 0, 1.0]]))
        if case.get("still"):
            T = None
        dets = []
        for i, q in enumerate(poss):
            if q is not None:
                pts = np.array(make_points(case, q), float) - cam
                dets.append(detection(pts, data=i, scores=[0.0 if k < case["npts"] // 2 or die == 1 else 1.0 for k in range(case["npts"])] if die and i == 0 else None))
        objs = t.update(dets, coord_transformations=T)
        frame = gradient(k)
        got = drawer.draw(frame, objs, coord_transform=T) if T is not None or k % 2 else drawer.draw(frame, objs)
        other.draw(gradient(k), objs[::-1], T)
        exp = gradient(k).astype(float)
        for o in objs:
            if not o.live_points.any():
                rec.tag("dead object")
                continue
            pts = np.asarray(o.get_estimate(absolute=True) if T is not None else o.estimate, float)
            pts = interest(pts) if case["custom"] else np.array([pts.mean(axis=0)])
            col = tuple(case["color"]) if case["color"] is not None else tuple(Palette.choose_color(o.id))
            img = np.ascontiguousarray(np.round(exp).astype(np.uint8))
            for q in pts - cam:
                cv2.circle(img, (int(q[0]), int(q[1])), case["radius"], col, case["thick"])
            exp = img.astype(float)
            trail = [pts] + past.get(o.id, [])
            for i in range(len(trail) - 1):
                line = np.zeros((H, W), np.uint8)
                for a, b in zip(trail[i] - cam, trail[i + 1] - cam):
                    cv2.line(line, (int(a[0]), int(a[1])), (int(b[0]), int(b[1])), 255, case["thick"])
                sel = line > 0
                exp[sel] = alphas[i] * np.array(col, float) + (1 - alphas[i]) * exp[sel]
            past[o.id] = trail[:hist]
            if len(trail) > hist:
                rec.tag("history full")
        gaps = gaps or any(i not in [o.id for o in objs] for i in past)
        close(got, np.clip(np.round(exp), 0, 255).astype(np.uint8), 4, "frame %d" % k)
    rec.tag("no transformation" if case.get("still") else "homography" if case["homog"] else "translation")
    rec.nontrivial = sum(1 for c in past.values() if len(c) > 2) > 1 and gaps


@st.composite
def default_case(draw):
    return {"h": draw(st.one_of(st.integers(20, 200), st.integers(20, 1500))), "w": draw(st.one_of(st.integers(20, 200), st.integers(20, 1500))),
            "npts": draw(st.integers(1, 4)), "pts": draw(st.lists(st.tuples(st.integers(0, 100), st.integers(0, 100)).map(list), min_size=4, max_size=4)),
            "move": draw(st.tuples(st.integers(-30, 30), st.integers(-30, 30)).map(list)), "what": draw(st.sampled_from(["paths", "absolute"]))}


def run_default(case, rec):
    """Paths() and AbsolutePaths() with no parameters: a mark at the mean point of every object, in its color, sensible for the size of the frame."""
    from norfair.camera_motion import TranslationTransformation
    from norfair.drawing import AbsolutePaths, Palette, Paths

    h, w, n = case["h"], case["w"], case["npts"]
    pts = np.array([[5 + x * (w - 10) / 100, 5 + y * (h - 10) / 100] for x, y in case["pts"][:n]])
    mean = pts.mean(axis=0)
    big = h / 100 * 2 + 6
    t = make_tracker()
    yy, xx = np.mgrid[0:h, 0:w]
    dist = np.hypot(xx - int(mean[0]), yy - int(mean[1]))
    blank = np.zeros((h, w, 3), np.uint8)
    if case["what"] == "paths":
        p = Paths()
        objs = t.update([detection(pts, data=0)])
        frames = [p.draw(blank.copy(), objs), p.draw(blank.copy(), objs)]
        check(p.draw(blank.copy(), []).any(), "the path of an object is gone in the frame after its last")
    else:
        p = AbsolutePaths()
        cam = np.array(case["move"], float)
        T = TranslationTransformation(-cam)
        objs = t.update([detection(pts, data=0)], coord_transformations=T)
        frames = [p.draw(blank.copy(), objs, T)]
    col = np.array(Palette.choose_color(objs[0].id))
    for f in frames:
        painted = f.any(axis=2)
        check(painted[dist <= big].any(), "nothing was painted near the mean point %s on a frame of %d x %d", mean.tolist(), w, h)
        check(not painted[dist > big].any(), "painted %d pixels away from the mean point on a frame of %d x %d", int(dist[painted].max()), w, h)
        check(np.abs(f[painted].astype(int) - col).max() <= 1, "painted in another color than the one of the object")
    rec.nontrivial = n > 1
    rec.tag(case["what"], "big frame" if h > 200 else "small frame")


SUBS = [Sub("defaults", default_case, run_default, 200, 3000), Sub("paths", lambda: case_(False), run_paths, 1500, 40000), Sub("absolute", lambda: case_(True), run_abs, 1200, 30000)]
