"""draw_absolute_grid: crosses on the projected latitude / longitude grid, moved by the camera."""
import math

import numpy as np
from hypothesis import strategies as st

from ..core import Sub, check, fail

RULE = (
    "Random frame sizes, grid sizes, radii, thickness, colors, polar or not, camera transformations (none, translations, "
    "homographies), several calls in a row with different ones; the frame must carry a cross (to one pixel) at every visible "
    "grid point recomputed with math.tan / sin / cos and nothing elsewhere. Non-trivial: at least 3 visible crosses under a "
    "transformation that moves them."
)


@st.composite
def case_(draw):
    call = st.tuples(
        st.integers(0, 9), st.integers(0, 3), st.one_of(*[st.integers(1, 12)] * 4, st.sampled_from([None, None, 20, 21, 40])), st.booleans(), st.integers(1, 5), st.integers(1, 2),
        st.tuples(st.integers(-80, 80), st.integers(-80, 80)).map(list), st.lists(st.integers(-6, 6), min_size=4, max_size=4),
    ).map(list)
    return {"size": draw(st.sampled_from([[120, 90], [91, 127], [60, 60]])), "calls": draw(st.lists(call, min_size=1, max_size=4)), "bare": draw(st.integers(0, 6)) == 0,
            "loops": draw(st.sampled_from([1] * 12 + [12]))}


def run(case, rec):
    import cv2
    from norfair.camera_motion import HomographyTransformation, TranslationTransformation
    from norfair.drawing import draw_absolute_grid

    w, h = case["size"]
    for n, (kind, ci, size, polar, radius, thick, v, hc) in enumerate(case["calls"] * case.get("loops", 1)):
        color = [(0, 0, 0), (250, 10, 20), (1, 255, 0), (77, 77, 200)][ci]
        kw = {"grid_size": size, "radius": radius, "thickness": thick}
        if ci:
            kw["color"] = color
        if size is None:
            # the documented defaults
            size = 20
            del kw["grid_size"]
        if case.get("bare"):
            color, radius, thick = (0, 0, 0), 2, 1
            kw = {k: v for k, v in kw.items() if k == "grid_size"}
            rec.tag("defaults")
        if polar:
            kw["polar"] = True
        if kind < 2:
            T, M = None, np.eye(3)
        elif kind < 6:
            T = TranslationTransformation(np.array(v, float))
            M = np.array([[1, 0, v[0]], [0, 1, v[1]], [0, 0, 1.0]])
        else:
            M = np.array([[1 + hc[0] / 40, hc[1] / 40, v[0]], [hc[2] / 40, 1 + hc[3] / 40, v[1]], [hc[0] / 40000, hc[1] / 40000, 1]])
            T = HomographyTransformation(M.copy())
        base = np.full((h, w, 3), 128, np.uint8)
        frame = base.copy()
        draw_absolute_grid(frame, T, **kw)
        # angles in the middle of equal slices of (-90, 90) degrees
        ang = [-math.pi / 2 + (k + 0.5) * math.pi / size for k in range(size)]
        sure, maybe = np.zeros((h, w), np.uint8), np.zeros((h, w), np.uint8)
        visible = 0
        for th in ang:
            for fi in ang:
                if polar:
                    x, y = math.tan(th) * math.cos(fi), math.tan(th) * math.sin(fi)
                else:
                    x, y = math.tan(fi), math.tan(th) / math.cos(fi)
                p = M @ [x * max(h, w) + w // 2, y * max(h, w) + h // 2, 1]
                if p[2] == 0:
                    continue
                x, y = p[0] / p[2], p[1] / p[2]
                e = 1e-6
                if not (-e <= x <= w + e and -e <= y <= h + e):
                    continue
                certain = e <= x <= w - e and e <= y <= h - e
                # truncation of a coordinate that is an integer up to rounding can go either way
                xs = sorted({int(x - e), int(x + e), int(x)})
                ys = sorted({int(y - e), int(y + e), int(y)})
                visible += certain
                for a in xs:
                    for b in ys:
                        m = np.zeros((h, w), np.uint8)
                        cv2.line(m, (a, b - radius), (a, b + radius), 255, thick)
                        cv2.line(m, (a - radius, b), (a + radius, b), 255, thick)
                        maybe |= m
                        if certain and len(xs) * len(ys) == 1:
                            sure |= m
        drawn = (frame != base).any(axis=2)
        if (drawn & (maybe == 0)).any():
            yy, xx = (int(q[0]) for q in np.where(drawn & (maybe == 0)))
            fail("call %d: pixel (x=%d, y=%d) was painted, no grid point is there" % (n, xx, yy))
        miss = (sure > 0) & ~(frame == np.array(color)).all(axis=2)
        if miss.any():
            yy, xx = (int(q[0]) for q in np.where(miss))
            fail("call %d: pixel (x=%d, y=%d) of a visible grid point is %s, expected %s" % (n, xx, yy, frame[yy, xx].tolist(), list(color)))
        if visible:
            check(drawn.any(), "call %d: %d grid points are visible, nothing was drawn", n, visible)
        rec.tag("polar" if polar else "equator", "none" if T is None else type(T).__name__)
        if visible >= 3 and T is not None:
            rec.nontrivial = True


SUBS = [Sub("grid", case_, run, 1500, 40000)]
