"""FixedCamera: every pixel of the bigger frame comes from the right frame."""
import numpy as np
from hypothesis import strategies as st

from ..core import Sub, check, fail

RULE = (
    "canvas: sequences of 1-6 frames (1-12 pixels a side, 1 or 3 channels; long: 150-600 frames of 1-3 pixels; large: up to 1080 x 1080) with camera translations (fractional, up to several frame "
    "sizes away in every direction) through adjust_frame; each output is compared pixel by pixel with a model: the frame at the "
    "centre moved by the camera, on top of the older content faded by the attenuation, cropped to the scaled canvas. "
    "Non-trivial: a frame is cropped and the camera moves."
)


@st.composite
def case_(draw):
    h, w = draw(st.integers(1, 12)), draw(st.integers(1, 12))
    far = st.one_of(st.integers(-4, 4), st.integers(-4, 4), st.integers(-30, 30))
    moves = st.tuples(far, far, st.sampled_from([0, 0, 1, -1, 3])).map(list)
    return {"h": h, "w": w, "c": draw(st.sampled_from([3, 3, 1])), "scale": draw(st.sampled_from([2, 1, 1.5, 3, 2.3, None])),
            "att": draw(st.sampled_from([0.05, 0.0, 0.5, 1.0, None])), "moves": draw(st.lists(moves, min_size=1, max_size=6))}


def run(case, rec):
    from norfair.camera_motion import TranslationTransformation
    from norfair.drawing import FixedCamera

    h, w, c = case["h"], case["w"], case["c"]
    kw = {}
    if case["scale"] is not None:
        kw["scale"] = case["scale"]
    if case["att"] is not None:
        kw["attenuation"] = case["att"]
    fc = FixedCamera(**kw)
    scale = 2 if case["scale"] is None else case["scale"]
    att = 0.05 if case["att"] is None else case["att"]
    BH, BW = int(np.round(h * scale)), int(np.round(w * scale))
    bg = np.zeros((BH, BW, c))
    earlier = []
    cropped = False
    for k, (dx, dy, frac) in enumerate(case["moves"]):
        y, x = np.mgrid[0:h, 0:w]
        frame = np.stack([(40 + 17 * k + 11 * y + 5 * x + 60 * ch) % 256 for ch in range(c)], axis=2).astype(np.uint8)
        keep = frame.copy()
        # the vector maps absolute coordinates to frame coordinates: the camera is at -v
        got = fc.adjust_frame(frame, TranslationTransformation(np.array([dx + frac / 8, dy + frac / 8])))
        check(np.array_equal(frame, keep), "adjust_frame changed the frame")
        check(isinstance(got, np.ndarray) and got.shape == (BH, BW, c) and got.dtype == frame.dtype,
              "adjust_frame returned shape %s type %s, expected %s", getattr(got, "shape", None), getattr(got, "dtype", None), (BH, BW, c))
        bg = np.floor(bg * (1 - att) + 1e-9)
        top, left = BH // 2 - h // 2, BW // 2 - w // 2
        oy, ox = int(np.round(top - dy - frac / 8)), int(np.round(left - dx - frac / 8))
        y0, y1, x0, x1 = max(0, -oy), min(h, BH - oy), max(0, -ox), min(w, BW - ox)
        inside = 0
        if y0 < y1 and x0 < x1:
            bg[y0 + oy:y1 + oy, x0 + ox:x1 + ox] = frame[y0:y1, x0:x1]
            inside = (y1 - y0) * (x1 - x0)
        d = np.abs(got.astype(int) - bg)
        if (d > min(k, 2)).any():
            yy, xx, _ = (int(v[0]) for v in np.where(d > min(k, 2)))
            fail("frame %d: pixel (x=%d, y=%d) is %s, expected %s (frame placed at x=%d, y=%d of %dx%d)" % (
                k, xx, yy, got[yy, xx].tolist(), bg[yy, xx].tolist(), ox, oy, BW, BH))
        bg = got.astype(float)
        if inside < h * w:
            cropped = True
            rec.tag("cropped" if inside else "out of sight")
        earlier.append((got, got.copy()))
    for got, keep in earlier:
        check(np.array_equal(got, keep), "a frame returned earlier changed")
    rec.nontrivial = cropped and len({tuple(m) for m in case["moves"]}) > 1


@st.composite
def long_case(draw):
    """Hundreds of frames; the camera mostly stands still, the first positions remain in the background."""
    h, w = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    some = draw(st.lists(st.tuples(st.integers(-3, 3), st.integers(-3, 3), st.just(0)).map(list), min_size=1, max_size=4))
    return {"h": h, "w": w, "c": 1, "scale": 3, "att": draw(st.sampled_from([0.0, 0.0, 0.001, 0.004, 0.01, None])),
            "moves": some + [draw(st.sampled_from(some + [[1, 1, 0]]))] * draw(st.integers(150, 600))}


@st.composite
def large_case(draw):
    """Frames of real sizes; moves of up to many times the frame."""
    side = st.one_of(st.integers(13, 200), st.sampled_from([64, 127, 128, 129, 255, 256, 257, 320, 511, 512, 640, 1080]))
    far = st.one_of(st.integers(-40, 40), st.integers(-700, 700), st.sampled_from([-100000, -32769, -4097, 0, 4097, 32768, 70000]))
    moves = st.tuples(far, far, st.sampled_from([0, 0, 1, -1, 3])).map(list)
    return {"h": draw(side), "w": draw(side), "c": draw(st.sampled_from([3, 3, 1])), "scale": draw(st.sampled_from([2, 1, 1.5, 2.3, None])),
            "att": draw(st.sampled_from([0.05, 0.0, 0.5, None])), "moves": draw(st.lists(moves, min_size=2, max_size=6))}


SUBS = [Sub("large", large_case, run, 160, 4000), Sub("long", long_case, run, 60, 1500), Sub("canvas", case_, run, 5000, 150000)]
