"""VideoFromFrames: a MOTChallenge folder as a video."""
import os

import numpy as np
from hypothesis import strategies as st

from ..core import Sub, check
from ..scratch import scratch, write_seqinfo
from .c28 import SIZES, marks, picture, read

RULE = (
    "Synthetic sequences (1-12 images as png, bmp or jpg, extra images beyond seqLength, other files in the folder, the "
    "information file given or found) iterated once, twice, partially and again; every image must come exactly once in order "
    "with its pixels (long: 995-1400 tiny images); written frames must be readable from <save_path>/videos/<sequence>.mp4 with the size and rate of the "
    "information file. Non-trivial: at least 3 images and a restarted iteration."
)


BIG = [(1920, 1080), (400, 2200), (2600, 64), (1100, 1040)]


@st.composite
def case_(draw):
    return {"big": draw(st.sampled_from([0] * 30 + [1, 2, 3, 4])), "n": draw(st.integers(1, 12)), "extra": draw(st.integers(0, 2)), "size": draw(st.integers(0, len(SIZES) - 1)),
            "ext": draw(st.sampled_from([".png", ".png", ".bmp", ".jpg"])), "dir": draw(st.sampled_from(["img1", "frames"])), "fps": draw(st.sampled_from([10, 25, 30])),
            "name": draw(st.sampled_from(["MOT17-02", "seq", "a b"])), "given": draw(st.booleans()), "partial": draw(st.one_of(st.none(), st.integers(0, 5))),
            "write": draw(st.booleans()), "stray": draw(st.integers(0, 7)), "tail": draw(st.sampled_from(["", "", "/"])), "order": draw(st.permutations(["name", "imDir", "frameRate", "seqLength", "imWidth", "imHeight", "imExt"]))}


def run(case, rec):
    import cv2
    from norfair.metrics import InformationFile
    from norfair.video import VideoFromFrames

    w, h = SIZES[case["size"]]
    n = case["n"]
    if case.get("big"):
        w, h = BIG[case["big"] - 1]
        n = min(n, 3)
        rec.tag("big images")
    with scratch() as d:
        seq = os.path.join(d, "data", case["name"])
        os.makedirs(os.path.join(seq, case["dir"]))
        vals = {"name": case["name"], "imDir": case["dir"], "frameRate": case["fps"], "seqLength": n, "imWidth": w, "imHeight": h, "imExt": case["ext"]}
        where = os.path.join(d, "info") if case["given"] else seq
        write_seqinfo(where, **{k: vals[k] for k in case["order"]})
        for k in range(1, n + case["extra"] + 1):
            check(cv2.imwrite(os.path.join(seq, case["dir"], "%06d%s" % (k, case["ext"])), picture(k, w, h)), "setup: imwrite failed")
        for k, other in enumerate(["000000.txt", "Thumbs.db", "000000" + case["ext"]]):
            if case["stray"] >> k & 1:
                with open(os.path.join(seq, case["dir"], other), "wb") as f:
                    f.write(b"\0something else")
        save = os.path.join(d, "save")
        kw = {"save_path": save}
        if case["given"]:
            kw["information_file"] = InformationFile(os.path.join(where, "seqinfo.ini"))
        if not case["write"]:
            kw["make_video"] = False
        v = VideoFromFrames(seq + case["tail"], **kw)
        if case["partial"] is not None:
            for k, f in enumerate(v):
                if k >= case["partial"]:
                    break
            if n > 2:
                rec.nontrivial = True
        for lap in range(1 if case["write"] else 2):
            got = []
            for f in v:
                check(len(got) < n, "more than %d frames", n)
                check(isinstance(f, np.ndarray) and f.shape == (h, w, 3), "frame %d is %r", len(got) + 1, getattr(f, "shape", f))
                k = len(got) + 1
                ref = cv2.imread(os.path.join(seq, case["dir"], "%06d%s" % (k, case["ext"])))
                check(np.array_equal(f, ref), "frame %d is not image %d", k, k)
                if case["write"]:
                    v.update(f)
                got.append(f)
            check(len(got) == n, "%d frames, the sequence has %d", len(got), n)
        if not case["write"]:
            check(not os.path.exists(os.path.join(save, "videos")), "a video was made")
            return
        path = os.path.join(save, "videos", case["name"] + ".mp4")
        check(os.path.isfile(path), "there is no %s", path)
        frames, fps = read(path)
        check(len(frames) == n, "%d frames were written, the file has %d", n, len(frames))
        check(n < 2 or abs(fps - case["fps"]) < 0.1, "the video has %s fps, expected %s", fps, case["fps"])
        for k, f in enumerate(frames):
            check(f.shape == (h, w, 3), "the video has frames of shape %s, expected %s", f.shape, (h, w, 3))
            check(np.abs(marks(f, w, h) - marks(picture(k + 1, w, h), w, h)).max() <= 16, "frame %d of the video is another one", k + 1)
        rec.tag("written")
        rec.tag(case["ext"])


@st.composite
def long_case(draw):
    return {"n": draw(st.integers(995, 1400)), "first": draw(st.integers(0, 250)), "partial": draw(st.integers(0, 1100))}


def run_long(case, rec):
    """Sequences of more than 999 images (of 2 x 2 pixels)."""
    import cv2
    from norfair.video import VideoFromFrames

    n = case["n"]

    def level(k):
        return (case["first"] + 3 * k + 7 * (k // 256)) % 256

    with scratch() as d:
        os.mkdir(os.path.join(d, "img"))
        write_seqinfo(d, name="long", imDir="img", frameRate=25, seqLength=n, imWidth=2, imHeight=2, imExt=".png")
        for k in range(1, n + 2):
            check(cv2.imwrite(os.path.join(d, "img", "%06d.png" % k), np.full((2, 2, 3), level(k), np.uint8)), "setup: imwrite failed")
        v = VideoFromFrames(d, save_path=d, make_video=False)
        for stop in (case["partial"], None):
            count = 0
            for f in v:
                count += 1
                check(count <= n, "more than %d frames", n)
                check(f is not None and f.shape == (2, 2, 3) and (f == level(count)).all(), "frame %d is not image %d", count, count)
                if count == stop:
                    break
        check(count == n, "%d frames, the sequence has %d", count, n)
    rec.nontrivial = n > 999


SUBS = [Sub("long", long_case, run_long, 24, 200), Sub("sequence", case_, run, 500, 12000)]
