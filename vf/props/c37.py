"""The progress bar of a Video: what is processed, how far, how fast; abbreviated to fit the terminal."""
import contextlib
import io
import os
import re
import sys
import time

import numpy as np
from hypothesis import strategies as st

from ..core import Sub, check
from ..scratch import scratch
from .c28 import make_clip

RULE = (
    "abbreviate: descriptions of all lengths under terminals of all sizes (stand-ins for os.get_terminal_size, some of the three streams not being terminals): shown as is if they "
    "fit, else cut in the middle within the space. bar: clips and a stand-in for a camera are read to the end or left early with generated labels; the printed progress must name the input "
    "and the label, give the percentage of the frames read (not for cameras) and a plausible number of frames per second, and every frame must be given once, in order. "
    "Non-trivial: the description was cut; or the video was left early, or had a label."
)


@contextlib.contextmanager
def terminal(sizes):
    """sizes: (columns, lines) or None (no terminal) for standard input, output and error."""
    old = os.get_terminal_size

    def fake(fd=1):
        if fd in (0, 1, 2) and sizes[fd] is not None:
            return os.terminal_size(sizes[fd])
        raise OSError("no terminal")

    os.get_terminal_size = fake
    try:
        yield
    finally:
        os.get_terminal_size = old


class Camera:
    def __init__(self, frames, fps):
        self.frames = list(frames)
        self.fps = fps
        self.released = 0

    def get(self, prop):
        import cv2

        h, w = self.frames[0].shape[:2] if self.frames else (48, 64)
        return {cv2.CAP_PROP_FPS: self.fps, cv2.CAP_PROP_FRAME_HEIGHT: float(h), cv2.CAP_PROP_FRAME_WIDTH: float(w)}.get(prop, 0.0)

    def read(self):
        return (True, self.frames.pop(0)) if self.frames else (False, None)

    def isOpened(self):
        return True

    def release(self):
        self.released += 1


@contextlib.contextmanager
def camera(frames, fps):
    import cv2

    old = cv2.VideoCapture
    cap = Camera(frames, fps)
    cv2.VideoCapture = lambda *a: cap
    try:
        yield cap
    finally:
        cv2.VideoCapture = old


def expected(description, columns):
    """What a bar that leaves 25 columns to the rest shows."""
    space = columns - 25
    if len(description) < space:
        return description
    head, tail = max(space // 2 - 3, 0), max((space + 1) // 2 - 3, 0)
    return description[:head] + " ... " + (description[-tail:] if tail else "")


@st.composite
def abbr_case(draw):
    size = st.one_of(st.none(), st.tuples(st.integers(0, 140), st.integers(0, 50)).map(list))
    cols = draw(st.one_of(st.integers(0, 140), st.integers(0, 140), st.integers(141, 1200)))
    n = draw(st.one_of(st.integers(0, 160), st.integers(0, 1300), st.integers(max(cols - 30, 0), max(cols - 20, 0))))
    return {"n": n, "accents": draw(st.booleans()), "sizes": [draw(st.one_of(st.just([cols, 24]), size)), draw(size), draw(size)], "default": draw(st.one_of(st.none(), st.tuples(st.integers(1, 99), st.integers(1, 99)).map(list)))}


def run_abbr(case, rec):
    from norfair import Video
    from norfair.utils import get_terminal_size

    sizes = [None if s is None else tuple(s) for s in case["sizes"]]
    default = case["default"]
    text = "".join(chr(33 + (7 * k + k // 50) % 90) for k in range(case["n"]))
    if case.get("accents"):
        text = "".join("\u00e9\u00f1\u0416\u03b1"[k % 4] if k % 3 else c for k, c in enumerate(text))
    with terminal(sizes):
        first = next((s for s in sizes if s is not None), None)
        want = first or (80, 24 if default is None else default[1])
        got = get_terminal_size() if default is None else get_terminal_size(default=tuple(default))
        want = first or ((80, 24) if default is None else tuple(default))
        check(tuple(got) == want, "the terminal has the size %s, expected %s", tuple(got), want)
        with camera([], 10.0):
            v = Video(camera=0)
        columns = (first or (80, 24))[0]
        r = v.abbreviate_description(text)
    space = columns - 25
    if len(text) < space:
        check(r == text, "%d characters fit in %d columns, yet the description is %r", len(text), columns, r)
        return
    rec.nontrivial = True
    rec.tag("cut" if space >= 7 else "tiny terminal")
    check(isinstance(r, str) and r.count(" ... ") == 1, "%d characters in %d columns give %r", len(text), columns, r)
    head, tail = r.split(" ... ")
    check(text.startswith(head) and text.endswith(tail), "%r does not begin and end as %r", r, text)
    check(len(r) <= max(space, 5), "%d characters in %d columns are abbreviated to %d", len(text), columns, len(r))
    check(abs(len(head) - len(tail)) <= 2 and len(r) >= min(space - 3, len(text)), "%d characters in %d columns are abbreviated to %r", len(text), columns, r)


@st.composite
def bar_case(draw):
    n = draw(st.integers(1, 9))
    return {"n": n, "stop": draw(st.one_of(st.none(), st.integers(1, n))), "camera": draw(st.booleans()), "index": draw(st.integers(0, 12)),
            "label": draw(st.sampled_from([None, "", "run", "night shift", "a-b_c 12", "x" * 40])), "columns": draw(st.integers(40, 60)),
            "name": draw(st.sampled_from(["clip.mp4", "a b.mp4", "long-name-of-a-video-file.mp4", "two.dots.mp4", "clip.avi", "CLIP.AVI"])), "sleep": draw(st.sampled_from([0, 0, 0, 5])), "rate": draw(st.sampled_from([10, 24, 30, 60])),
            "ext": draw(st.sampled_from([None, None, "mp4", "avi"])), "out": draw(st.sampled_from([None, None, 5, 50.0]))}


@st.composite
def long_bar_case(draw):
    """Files of hundreds of frames."""
    n = draw(st.integers(200, 700))
    return dict(draw(bar_case()), n=n, stop=draw(st.one_of(st.none(), st.integers(1, n))), camera=draw(st.sampled_from([False, False, False, True])), sleep=0)


def run_bar(case, rec):
    from norfair import Video

    n, stop = case["n"], case["stop"]
    kw = {} if case["label"] is None else {"label": case["label"]}
    for key, name in (("ext", "output_extension"), ("out", "output_fps")):
        if case.get(key) is not None:
            kw[name] = case[key]
    pictures = [np.full((48, 64, 3), (20 * k + 5) % 256, np.uint8) for k in range(n)]
    out = io.StringIO()
    old = sys.stdout
    with scratch() as d, terminal([None, (case["columns"], 24), None]):
        sys.stdout = out
        try:
            if case["camera"]:
                with camera(pictures, float(case.get("rate", 24))) as cap:
                    v = Video(camera=case["index"], output_path=d, **kw)
                check((v.input_height, v.input_width, v.output_fps) == (48, 64, float(case.get("out") or case.get("rate", 24))), "camera of %s x %s, %s fps", v.input_height, v.input_width, v.output_fps)
                described = "Camera(%d)" % case["index"]
            else:
                path = os.path.join(d, case["name"])
                make_clip(path, n, 64, 48, case.get("rate", 10), "MJPG" if path.lower().endswith("avi") else "mp4v")
                v = Video(input_path=path, output_path=d, **kw)
                described = case["name"]
            if case["label"]:
                described += " | " + case["label"]
            begin = time.time()
            it = iter(v)
            count = 0
            first = last = None
            for f in it:
                last = time.time()
                first = first or last
                if case["camera"]:
                    check(np.array_equal(f, np.full((48, 64, 3), (20 * count + 5) % 256, np.uint8)), "frame %d of the camera is another", count)
                count += 1
                if case["sleep"]:
                    time.sleep(case["sleep"] / 1000)
                if count == stop:
                    break
            asked = time.time()
            it.close()
        finally:
            sys.stdout = old
        check(count == (stop or n), "%d frames were read, expected %d", count, stop or n)
    lines = [ln for ln in out.getvalue().split("\n") if "fps" in ln]
    check(len(lines) >= 1, "no progress was shown: %r", out.getvalue())
    line = lines[-1]
    want = expected(described, case["columns"]).strip()
    check(" ".join(want.split()) in " ".join(line.split()), "the progress %r does not show %r", line, want)
    check(line.strip().startswith(want[:1]), "the progress %r does not begin with %r", line, want)
    part = re.findall(r"(\d+)%", line.replace(want, ""))
    if case["camera"]:
        check(not part, "a camera shows a percentage: %r", line)
    else:
        check(len(part) == 1 and abs(int(part[0]) - 100.0 * count / n) <= 1, "%r after %d of %d frames", line, count, n)
    fps = re.findall(r"([\d.]+) ?fps", line.replace(want, ""))
    check(len(fps) == 1, "no frames per second in %r", line)
    got = float(fps[0])
    low = count / (last - begin + 0.002) * 0.8
    high = count / max((count - 1) * case["sleep"] / 1000, 1e-9) * 1.1
    check(low - 0.02 <= got <= high, "%.2f frames per second are shown, %d frames took %.4f s", got, count, asked - begin)
    rec.tag("camera" if case["camera"] else "file")
    rec.nontrivial = bool(case["label"]) or stop is not None


SUBS = [
    Sub("long_bar", long_bar_case, run_bar, 24, 300),
    Sub("abbreviate", abbr_case, run_abbr, 2000, 30000,
        regressions=[{"n": 12, "sizes": [[30, 24], None, None], "default": None}, {"n": 12, "sizes": [[31, 24], None, None], "default": None}]),
    Sub("bar", bar_case, run_bar, 600, 8000, regressions=[
        {"n": 1300, "stop": s, "camera": True, "index": 3, "label": "long", "columns": 60, "name": "", "sleep": 0} for s in (None, 1201)]),
]
