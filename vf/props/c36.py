"""The drawing primitives paint their shape, in place, and nothing else; blending is the weighted sum."""
import numpy as np
from hypothesis import strategies as st

from ..core import Sub, check

RULE = (
    "shapes: circles, lines, crosses and rectangles with generated frames, places (also outside of the frame), sizes, colors, widths (and the defaults) are drawn and compared "
    "with their geometry: pixels clearly inside the stroke have the color, pixels clearly outside keep their value. text: titles are compared with the painted area OpenCV "
    "predicts, a shadow is the text painted before in the shadow color at its offset, wider or bigger text covers more. blend: every pixel of alpha_blend is the rounded, clipped weighted sum. "
    "Everything paints in place and returns the frame. Non-trivial: at least 12 pixels were painted, part of the frame was not; for blends, two different weights."
)
color = st.lists(st.integers(0, 255), min_size=3, max_size=3)


def frame_of(case):
    h, w = case["size"]
    return (np.indices((h, w)).sum(axis=0)[..., None] * np.array([3, 5, 7]) % 200).astype(np.uint8) + 20


@st.composite
def shape_case(draw):
    h, w = draw(st.integers(1, 60)), draw(st.integers(1, 60))
    if draw(st.integers(0, 5)) == 0:
        h, w = draw(st.sampled_from([[60, 500], [500, 60], [1, 900]]))
    xy = st.tuples(st.integers(-20, w + 20), st.integers(-20, h + 20)).map(list)
    kind = draw(st.sampled_from(["circle", "circle", "line", "cross", "rectangle"]))
    return {
        "kind": kind, "size": [h, w], "a": draw(xy), "b": draw(xy), "radius": draw(st.one_of(st.none(), st.integers(0, 14))),
        "thickness": draw(st.one_of(st.none(), st.just(-1), st.integers(1, 6))), "color": draw(st.one_of(st.none(), color)),
        "np": draw(st.booleans()),
    }


def to_segment(p, q, xs, ys):
    p, q = np.array(p, float), np.array(q, float)
    d = q - p
    n = float(d @ d)
    t = np.zeros_like(xs) if n == 0 else np.clip(((xs - p[0]) * d[0] + (ys - p[1]) * d[1]) / n, 0, 1)
    return np.hypot(xs - p[0] - t * d[0], ys - p[1] - t * d[1])


def run_shape(case, rec):
    from norfair.drawing.drawer import Drawer

    before = frame_of(case)
    frame = before.copy()
    h, w = case["size"]
    ys, xs = np.mgrid[0:h, 0:w].astype(float)
    kind, t, r = case["kind"], case["thickness"], case["radius"]
    a, b = [tuple(int(v) for v in case[k]) for k in "ab"]
    if case["np"]:
        a, b = tuple(np.array(a)), tuple(np.array(b))
    col = None if case["color"] is None else tuple(case["color"])
    kw = {} if col is None else {"color": col}
    default = False
    if kind == "circle":
        if r is not None:
            kw["radius"] = r
        if t is not None:
            kw["thickness"] = t
        got = Drawer.circle(frame, a, **kw)
        dist = np.hypot(xs - a[0], ys - a[1])
        size = int(max(max(h, w, 3) * 0.005, 1)) if r is None else r
        width = size - 1 if t is None else t
        # the default radius and width are only promised to be sensible for the size of the frame
        default = r is None or t is None or width == 0
        if width < 0:
            inside, outside = dist <= size - 1, dist >= size + 1.5
        else:
            inside = np.abs(dist - size) <= width / 2 - 1 if width > 1 else np.zeros_like(dist, bool)
            outside = np.abs(dist - size) >= width / 2 + 2
        if default:
            inside, outside = np.zeros_like(dist, bool), dist >= (max(h, w) * 0.02 + 4 if r is None else r) + (width if t is not None else r or 4) / 2 + 4
        full = 0 <= a[0] < w and 0 <= a[1] < h
    elif kind == "line":
        t = None if t == -1 else t
        if t is not None:
            kw["thickness"] = t
        got = Drawer.line(frame, a, b, **kw)
        dist = to_segment(a, b, xs, ys)
        width = 1 if t is None else t
        inside, outside = dist <= max(width / 2 - 1, 0.01), dist >= width / 2 + 1.6
        full = 0 <= a[0] < w and 0 <= a[1] < h
        if not (full and 0 <= b[0] < w and 0 <= b[1] < h):  # OpenCV moves clipped lines by a pixel or two
            inside, outside, full = dist <= width / 2 - 3, dist >= width / 2 + 3.5, False
    elif kind == "cross":
        r = 3 if r is None else r
        t = 1 if t in (None, -1) else t
        col = (0, 0, 0) if col is None else col
        center = np.array(a) if case["np"] else a
        got = Drawer.cross(frame, center, radius=r, color=col, thickness=t)
        d1 = to_segment((a[0], a[1] - r), (a[0], a[1] + r), xs, ys)
        d2 = to_segment((a[0] - r, a[1]), (a[0] + r, a[1]), xs, ys)
        dist = np.minimum(d1, d2)
        inside, outside = dist <= max(t / 2 - 1, 0.01), dist >= t / 2 + 1.6
        full = 0 <= a[0] < w and 0 <= a[1] < h
        if case["np"]:
            check(center.tolist() == list(a), "cross moved the center it was given")
    else:
        if t is not None:
            kw["thickness"] = t
        pts = [a, b] if not case["np"] else np.array([a, b])
        got = Drawer.rectangle(frame, pts, **kw)
        (x0, x1), (y0, y1) = sorted((a[0], b[0])), sorted((a[1], b[1]))
        width = 1 if t is None else t
        sides = [((x0, y0), (x1, y0)), ((x1, y0), (x1, y1)), ((x1, y1), (x0, y1)), ((x0, y1), (x0, y0))]
        dist = np.min([to_segment(p, q, xs, ys) for p, q in sides], axis=0)
        if width < 0:
            inside = (xs >= x0) & (xs <= x1) & (ys >= y0) & (ys <= y1)
            outside = ~inside
        else:
            inside, outside = dist <= max(width / 2 - 1, 0.01), dist >= width / 2 + 1.6
        full = 0 <= a[0] < w and 0 <= a[1] < h
    want = np.array((0, 0, 0) if col is None else col, np.uint8)
    check(isinstance(got, np.ndarray) and got.shape == before.shape and got.dtype == np.uint8, "%s returned %r", kind, type(got))
    check(np.array_equal(got, frame), "%s did not paint on the frame it was given", kind)
    painted = (frame != before).any(axis=2)
    is_color = (frame == want).all(axis=2)
    check(bool((is_color | ~painted).all()), "%s painted something in another color than %s", kind, want.tolist())
    bad = outside & painted
    if bad.any():
        y, x = np.argwhere(bad)[0]
        check(False, "%s painted (x=%d, y=%d), %.1f away", kind, x, y, dist[y, x])
    miss = inside & ~is_color
    if miss.any():
        y, x = np.argwhere(miss)[0]
        check(False, "%s left out (x=%d, y=%d), %.1f from it", kind, x, y, dist[y, x])
    rec.tag(kind)
    if full and kind != "circle":
        check(bool(is_color[a[1], a[0]]), "%s left out its point (x=%d, y=%d)", kind, a[0], a[1])
    if kind == "circle" and not default and full and case["thickness"] is not None and (r or 0) > 0:
        ring = np.abs(dist - size) < 1.5
        if ring.any() and size + 2 < min(a[0], a[1], w - 1 - a[0], h - 1 - a[1]):
            angles = np.arctan2(ys - a[1], xs - a[0])[is_color & (np.abs(dist - size) < max(case["thickness"], 1) / 2 + 1.5)]
            check(angles.size > 0 and np.diff(np.sort(angles)).max(initial=0) < 1.7, "the circle is not closed")
            rec.tag("whole circle")
    rec.nontrivial = int(painted.sum()) >= 12 and not painted.all()


@st.composite
def text_case(draw):
    h, w = draw(st.integers(20, 120)), draw(st.integers(20, 200))
    if draw(st.integers(0, 6)) == 0:
        w = 3000
    return {
        "size": [h, w], "text": draw(st.sampled_from(["7", "a-1", "person-12", "Wq", "0.5", "x" * 30, ""])),
        "at": [draw(st.integers(0, min(w, 200) // 2)), draw(st.integers(h // 2, h + 5))], "font": draw(st.one_of(st.none(), st.integers(2, 16).map(lambda v: v / 8), st.integers(2, 32).map(lambda v: v / 8))),
        "thickness": draw(st.one_of(st.none(), st.integers(1, 12))), "color": draw(color), "shadow": draw(color), "offset": draw(st.integers(-5, 12)),
        "flat": draw(st.sampled_from([0, 128, 255])),
    }


def run_text(case, rec):
    import cv2

    from norfair.drawing.drawer import Drawer

    h, w = case["size"]
    blank = np.full((h, w, 3), case["flat"], np.uint8)
    pos, col, sh, off = tuple(case["at"]), tuple(case["color"]), tuple(case["shadow"]), case["offset"]
    kw = {}
    if case["font"] is not None:
        kw["size"] = case["font"]
    if case["thickness"] is not None:
        kw["thickness"] = case["thickness"]
    font = min(max(max(h, w) / 4000, 0.5), 1.5) if case["font"] is None else case["font"]
    thick = int(round(font) + 1) if case["thickness"] is None else case["thickness"]
    plain = blank.copy()
    got = Drawer.text(plain, case["text"], pos, color=col, shadow=False, **kw)
    check(np.array_equal(got, plain) and got.shape == blank.shape, "text does not paint in place")
    painted = (plain != blank).any(axis=2)
    (tw, th), base = cv2.getTextSize(case["text"], cv2.FONT_HERSHEY_SIMPLEX, font, thick)
    m = 2 * thick + 4
    if None in (case["font"], case["thickness"]):  # sensible for the size of the frame
        m, tw, th = m + max(h, w) // 50, tw * 2, th * 2
    if painted.any():
        ys, xs = np.nonzero(painted)
        x0, y0 = pos
        check(xs.min() >= x0 - m and xs.max() <= x0 + tw + m and ys.min() >= y0 - th - m and ys.max() <= y0 + base + m,
              "text of %d x %d at %s painted x %d-%d, y %d-%d", tw, th, pos, xs.min(), xs.max(), ys.min(), ys.max())
    lo, hi = np.minimum(col, case["flat"]), np.maximum(col, case["flat"])
    check(bool(((plain >= lo) & (plain <= hi)).all()), "text painted other colors than a blend of %s and the background", col)
    fits = pos[0] + tw < w - m and pos[1] - th > m and pos[1] < h
    fits = fits and None not in (case["font"], case["thickness"])
    if case["text"] and fits and any(abs(c - case["flat"]) > 20 for c in col):
        check(bool(painted.any()), "no text was painted")
        ys, xs = np.nonzero(painted)
        check(xs.min() <= pos[0] + m + 6 and xs.max() >= pos[0] + tw * 0.6 - m, "text of width %d at %d covers x %d-%d", tw, pos[0], xs.min(), xs.max())
        check(ys.max() >= pos[1] - thick - 3 - th // 2, "text at %d covers y %d-%d", pos[1], ys.min(), ys.max())
        if case["text"] in ("7", "a-1", "0.5", "x" * 30):  # nothing below the base line: the position is the corner of what is painted
            check(-1 <= ys.max() - pos[1] <= 3, "the bottom of the text is at y=%d, its position at %d", ys.max(), pos[1])
            check(-2 <= xs.min() - pos[0] <= 3 + 6 * font, "the text begins at x=%d, its position is %d", xs.min(), pos[0])
            rec.tag("corner")
        rec.tag("whole text")
    # the shadow is the same text painted first, offset, in the shadow color
    shadowed = Drawer.text(blank.copy(), case["text"], pos, color=col, shadow_color=sh, shadow_offset=off, **kw)
    model = Drawer.text(blank.copy(), case["text"], (pos[0] + off, pos[1] + off), color=sh, shadow=False, **kw)
    model = Drawer.text(model, case["text"], pos, color=col, shadow=False, **kw)
    check(np.array_equal(shadowed, model), "the shadow is not the text in the shadow's color behind it")
    default = Drawer.text(blank.copy(), case["text"], pos, color=col, **kw)
    model = Drawer.text(blank.copy(), case["text"], pos, color=col, shadow_color=(0, 0, 0), shadow_offset=1, **kw)
    check(np.array_equal(default, model), "the default shadow is not black with an offset of 1")
    # more covers more
    wide = Drawer.text(blank.copy(), case["text"], pos, size=font, thickness=thick + 4, color=col, shadow=False)
    if case["text"] and fits and any(abs(c - case["flat"]) > 60 for c in col):
        check(int((wide != blank).any(axis=2).sum()) > int(painted.sum()) or None in (case["font"], case["thickness"]), "thicker text does not cover more")
    rec.nontrivial = int(painted.sum()) >= 12


@st.composite
def blend_case(draw):
    h, w = draw(st.integers(1, 8)), draw(st.integers(1, 8))
    px = st.lists(st.integers(0, 255), min_size=h * w * 3, max_size=h * w * 3)
    wt = st.integers(0, 16).map(lambda v: v / 8)
    return {"size": [h, w], "f1": draw(px), "f2": draw(px), "alpha": draw(st.one_of(st.none(), st.integers(0, 8).map(lambda v: v / 8), wt)), "beta": draw(st.one_of(st.none(), wt)),
            "gamma": draw(st.one_of(st.none(), st.integers(-80, 80)))}


def run_blend(case, rec):
    from norfair.drawing.drawer import Drawer

    h, w = case["size"]
    f1, f2 = [np.array(case[k], np.uint8).reshape(h, w, 3) for k in ("f1", "f2")]
    k1, k2 = f1.copy(), f2.copy()
    kw = {k: case[k] for k in ("alpha", "beta", "gamma") if case[k] is not None}
    got = Drawer.alpha_blend(f1, f2, **kw)
    alpha = 0.5 if case["alpha"] is None else case["alpha"]
    beta = 1 - alpha if case["beta"] is None else case["beta"]
    want = np.clip(alpha * k1.astype(float) + beta * k2.astype(float) + (case["gamma"] or 0), 0, 255)
    check(got.shape == f1.shape and got.dtype == np.uint8, "blend has shape %s, type %s", got.shape, got.dtype)
    e = np.abs(got.astype(float) - want)
    if e.max() > 0.51:
        i = np.unravel_index(e.argmax(), e.shape)
        check(False, "%s * %d + %s * %d + %s = %s, expected %s", alpha, k1[i], beta, k2[i], case["gamma"] or 0, got[i], want[i])
    check(np.array_equal(f1, k1) and np.array_equal(f2, k2), "blending changed its inputs")
    check(got is not f1 and got is not f2, "blending does not give a new frame")
    rec.nontrivial = alpha != beta and h * w > 3


SUBS = [Sub("shapes", shape_case, run_shape, 4000, 80000,
            regressions=[{"kind": "cross", "size": [20, 20], "a": [9, 9], "b": [0, 0], "radius": 3, "thickness": 1, "color": [1, 2, 3], "np": False}]),
        Sub("text", text_case, run_text, 2500, 40000), Sub("blend", blend_case, run_blend, 1500, 20000)]
