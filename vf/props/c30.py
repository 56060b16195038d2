"""MOTChallenge files: detections in, predictions out, sequence information."""
import os
import re
from collections import Counter

import numpy as np
from hypothesis import strategies as st

from ..core import Sub, check, fail
from ..scratch import scratch, write_seqinfo
from ..trk import detection

RULE = (
    "detections: det.txt files with 0-25 rows in any order (several per frame, frames without rows, rows outside of the "
    "sequence, one row only, fractional and negative coordinates) parsed; the multiset of boxes and confidences of every frame, "
    "iterated twice, must be the one written. predictions: random tracked objects per frame (none, many, explicit frame "
    "numbers) written and parsed back; the file must hold exactly those rows and be complete after the last frame; fed to "
    "DetectionFileParser it gives the same boxes. information: seqinfo.ini with variables in any order. Non-trivial: rows out "
    "of order with two in one frame / frames with and without predictions."
)


@st.composite
def det_case(draw):
    n = draw(st.integers(1, 8))
    num = st.integers(-4000, 16000).map(lambda v: v / 8)
    row = st.tuples(st.integers(0, n + 2), num, num, st.integers(0, 4000).map(lambda v: v / 8), st.integers(0, 4000).map(lambda v: v / 8), st.integers(-8, 100)).map(list)
    return {"n": n, "rows": draw(st.lists(row, max_size=25)), "given": draw(st.booleans()), "blank": draw(st.booleans()),
            "tracked": draw(st.sampled_from([0, 1, 2])), "rep": draw(st.sampled_from([1] * 14 + [30, 150]))}


def key(x0, y0, x1, y1, *c):
    return tuple(round(float(v) * 64) for v in (x0, y0, x1, y1) + c)


def run_det(case, rec):
    from norfair import Detection
    from norfair.metrics import DetectionFileParser, InformationFile

    n, rows = case["n"], case["rows"]
    rep = case.get("rep", 1)
    if rep > 1:
        # the same again and again: a long sequence, in no order
        rows = [[r[0] + k * n] + r[1:] for r in rows for k in range(rep)]
        n *= rep
        rec.tag("long")
    with scratch() as d:
        seq = os.path.join(d, "seq")
        os.makedirs(os.path.join(seq, "det"))
        info = os.path.join(d, "info") if case["given"] else seq
        write_seqinfo(info, name="seq", seqLength=n)
        with open(os.path.join(seq, "det", "det.txt"), "w") as f:
            for r in rows:
                f.write("%d,-1,%r,%r,%r,%r,%r,-1,-1,-1\n" % (r[0], r[1], r[2], r[3], r[4], r[5] / 100))
            if case["blank"]:
                f.write("\n")
        kw = {"information_file": InformationFile(os.path.join(info, "seqinfo.ini"))} if case["given"] else {}
        p = DetectionFileParser(seq, **kw)
        want = [Counter() for _ in range(n)]
        for r in rows:
            if 1 <= r[0] <= n:
                want[r[0] - 1][key(r[1], r[2], r[1] + r[3], r[2] + r[4], r[5] / 100)] += 1
        from norfair import Tracker

        # the detections of a frame may be tracked before the next frame, or before the next iteration
        tracker = Tracker("euclidean", 1000, past_detections_length=3)
        for lap in range(2 + (case.get("tracked") == 2)):
            frames = []
            for dets in p:
                if case.get("tracked"):
                    tracker.update(dets)
                check(len(frames) < n, "more than %d frames", n)
                frames.append(dets)
            check(len(frames) == n, "%d frames, the sequence has %d", len(frames), n)
            for k, dets in enumerate(frames):
                got = Counter()
                for det in dets:
                    check(isinstance(det, Detection), "%r is not a Detection", det)
                    check(np.shape(det.points) == (2, 2) and np.shape(det.scores) == (2,), "points %s, scores %s", np.shape(det.points), np.shape(det.scores))
                    check(det.scores[0] == det.scores[1], "scores %s", det.scores)
                    got[key(*det.points.ravel(), det.scores[0])] += 1
                check(got == want[k], "frame %d holds %s, expected %s (in 1/64)", k + 1, dict(got), dict(want[k]))
        rec.nontrivial = [r[0] for r in rows] != sorted(r[0] for r in rows) and any(sum(c.values()) > 1 for c in want)
        rec.tag("rows=%s" % (len(rows) if len(rows) < 3 else "many"))


@st.composite
def pred_case(draw):
    n = draw(st.integers(1, 6))
    num = st.integers(-800, 8000)
    obj = st.tuples(num, num, st.integers(1, 800), st.integers(1, 800)).map(list)
    return {"n": n, "den": draw(st.sampled_from([1, 8, 7, 0.003])), "frames": draw(st.lists(st.lists(obj, max_size=4), min_size=n, max_size=n)), "given": draw(st.booleans()), "tail": draw(st.sampled_from(["", "", "/"])),
            "number": draw(st.one_of(st.none(), st.sampled_from([1, 5]), st.integers(2, 10 ** draw(st.integers(1, 9))), st.lists(st.integers(0, 9), min_size=n, max_size=n))), "name": draw(st.sampled_from(["seq", "MOT 1"])),
            "rep": draw(st.sampled_from([1] * 14 + [40, 1])), "crowd": draw(st.sampled_from([1] * 14 + [70])), "move": draw(st.sampled_from([0, 0, 0, 16, -250]))}


def tracked_boxes(boxes, move=None):
    """Real tracked objects, one per box, in order (seen by a camera that moved)."""
    from norfair import Tracker
    from norfair.camera_motion import TranslationTransformation
    from norfair.filter import NoFilterFactory

    t = Tracker(lambda d, o: 1.0, 0.5, initialization_delay=0, hit_counter_max=3, filter_factory=NoFilterFactory())
    objs = t.update([detection([[b[0], b[1]], [b[0] + b[2], b[1] + b[3]]], data=i) for i, b in enumerate(boxes)],
                    coord_transformations=None if move is None else TranslationTransformation(np.array(move, float)))
    check(len(objs) == len(boxes), "setup: %d boxes gave %d objects", len(boxes), len(objs))
    return sorted(objs, key=lambda o: o.last_detection.data)


def run_pred(case, rec):
    from norfair.metrics import DetectionFileParser, InformationFile, PredictionsTextFile

    n, den = case["n"], case["den"]
    if case.get("rep", 1) * case.get("crowd", 1) > 1 and not isinstance(case["number"], list):
        n *= case.get("rep", 1)
        case = dict(case, frames=[[[v + 3 * k for v in b] for k in range(case.get("crowd", 1)) for b in boxes] for boxes in case["frames"]] * case.get("rep", 1))
        rec.tag("long or crowded")
    with scratch() as d:
        seq = os.path.join(d, "in", case["name"])
        info = os.path.join(d, "info") if case["given"] else seq
        write_seqinfo(info, name="seq", seqLength=n)
        os.makedirs(seq, exist_ok=True)
        kw = {"information_file": InformationFile(os.path.join(info, "seqinfo.ini"))} if case["given"] else {}
        out = PredictionsTextFile(seq + case.get("tail", ""), save_path=os.path.join(d, "save"), **kw)
        want = []
        for k, boxes in enumerate(case["frames"]):
            boxes = [[v / den for v in b] for b in boxes]
            objs = tracked_boxes(boxes, [case["move"] * (k + 1), -3 * case["move"]] if case.get("move") else None)
            number = k + 1
            if case["number"] is not None:
                number = case["number"][k] if isinstance(case["number"], list) else case["number"] * (k + 1) + 1
                out.update(objs, frame_number=number) if k % 2 else out.update(predictions=objs, frame_number=number)
            else:
                out.update(objs)
            want += [[number, o.id] + b for o, b in zip(objs, boxes)]
        path = os.path.join(d, "save", "predictions", case["name"] + ".txt")
        check(os.path.isfile(path), "there is no predictions/%s.txt", case["name"])
        with open(path) as f:
            lines = f.read().split("\n")
        check(lines[-1] == "", "the file does not end in a newline")
        rows = [line.split(",") for line in lines[:-1]]
        check(len(rows) == len(want), "%d rows, %d were written", len(rows), len(want))
        for r, exp in zip(rows, want):
            check(len(r) == 10 and all(float(v) == -1 for v in r[6:]), "row %s is not a MOTChallenge row", r)
            check(r[0] == str(exp[0]) and r[1] == str(exp[1]), "row %s, expected frame %d, id %d", r, exp[0], exp[1])
            check(max(abs(float(a) - b) for a, b in zip(r[2:6], exp[2:])) <= 1e-12 * max(1e3, max(abs(v) for v in exp[2:])), "row %s, expected box %s", r, exp[2:])
        if case["number"] is None:
            os.makedirs(os.path.join(seq, "det"))
            os.rename(path, os.path.join(seq, "det", "det.txt"))
            for k, dets in enumerate(DetectionFileParser(seq, **kw)):
                got = sorted(tuple(float(v) for v in det.points.ravel()) for det in dets)
                exp = sorted((b[2], b[3], b[2] + b[4], b[3] + b[5]) for b in want if b[0] == k + 1)
                check(len(got) == len(exp) and all(max(abs(x - y) for x, y in zip(p, q)) < 1e-2 + 1e-6 * max(abs(v) for v in q) for p, q in zip(got, exp)),
                      "frame %d is read back as %s, expected %s", k + 1, got, exp)
            rec.tag("read back")
        rec.nontrivial = len({bool(b) for b in case["frames"]}) > 1


NAMES = ["seqLength", "imWidth", "imHeight", "frameRate", "imExt", "imDir", "name"]
# names that begin with one of those, or that those begin with
LONGER = ["seqLengthTotal", "seqLen", "imWidth2", "nameOfSequence", "im", "frameRateMax", "imDirectory", "seq"]


@st.composite
def info_case(draw):
    val = st.one_of(st.integers(0, 10 ** 6).map(str), st.text("abcXYZ.-_/ =0123", min_size=0, max_size=8), st.sampled_from([".jpg", "img1", "007", "1.5", "-3", "30fps", "2020_11", "1e3"]))
    names = draw(st.lists(st.sampled_from(NAMES + LONGER), min_size=1, max_size=8, unique=True))
    return {"vars": [[n, draw(val)] for n in names], "header": draw(st.booleans()), "blank": draw(st.booleans()), "tail": draw(st.booleans())}


def run_info(case, rec):
    from norfair.metrics import InformationFile

    with scratch() as d:
        path = os.path.join(d, "seqinfo.ini")
        lines = (["[Sequence]"] if case["header"] else []) + ([""] if case["blank"] else []) + ["%s=%s" % tuple(v) for v in case["vars"]]
        with open(path, "w") as f:
            f.write("\n".join(lines) + ("\n" if case["tail"] else ""))
        info = InformationFile(path)
        for n, v in case["vars"]:
            got = info.search(n)
            want = int(v) if v and all(c in "0123456789" for c in v) else v
            if re.fullmatch(r"\s*[-+]\s*[0-9]+\s*|\s+[0-9]+\s*|[0-9]+\s+", v):
                want = got if got in (v, int(v.replace(" ", ""))) else v  # a number to some, a text to others
            check(type(got) is type(want) and got == want, "search(%r) is %r, the file says %r", n, got, v)
            check(info.search(variable_name=n) == got, "search(variable_name=%r) differs", n)
        for n in NAMES + LONGER:
            if n not in [v[0] for v in case["vars"]]:
                rec.tag("missing")
                try:
                    got = info.search(n)
                except ValueError:
                    continue
                fail("search(%r) returned %r, the variable is not in the file" % (n, got))
    rec.nontrivial = len(case["vars"]) > 2


SUBS = [
    Sub("detections", det_case, run_det, 1500, 40000),
    Sub("predictions", pred_case, run_pred, 1200, 30000),
    Sub("information", info_case, run_info, 1500, 30000),
]
