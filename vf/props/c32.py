"""Utilities: cut-outs, the debugging table, the shape a Detection gives to its points, terminal helpers."""
import contextlib
import io
import os
import re

import numpy as np
from hypothesis import strategies as st

from ..core import Sub, check

RULE = (
    "cutout: random images (gray or colour, down to 1 pixel) whose pixels are all different and point sets inside, partly outside "
    "(on any side) or wholly outside of them, compared with a pixel-by-pixel crop; non-trivial: the box is not empty and sticks out "
    "of the image or has fractional corners. table: a tracker driven through generated frames, its tracked objects of every phase "
    "(initializing, never matched, matched) printed and the rows parsed back; non-trivial: at least two objects, one of them never "
    "matched. detection: points of 0-4 dimensions and scores of either form; 1-D becomes one row, 2-D is kept, more dimensions "
    "are refused; non-trivial: not the plain 2-D case."
)


@st.composite
def cut_case(draw):
    side = st.one_of(st.integers(1, 12), st.integers(1, 12), st.integers(20, 60))
    h, w = draw(side), draw(side)
    lo = draw(st.sampled_from([0, 0, -6, -40]))
    co = lambda m: st.one_of(st.integers(lo, m + (0 if lo == 0 else 8)), st.floats(lo, m + (0 if lo == 0 else 8), allow_nan=False).map(lambda v: round(v, 3)))  # noqa: E731
    pts = draw(st.lists(st.tuples(co(w), co(h)), min_size=1, max_size=5))
    if lo == -40 and draw(st.booleans()):
        dx, dy = draw(st.sampled_from([(-60, 0), (0, -60), (60, 0), (0, 60), (-60, -60)]))
        pts = [(x + dx, y + dy) for x, y in pts]
    return {"h": h, "w": w, "gray": draw(st.booleans()), "pts": [list(p) for p in pts], "int": draw(st.booleans())}


def run_cut(case, rec):
    from norfair import get_cutout

    h, w = case["h"], case["w"]
    img = np.arange(h * w).reshape(h, w).astype(np.int32)
    if not case["gray"]:
        img = np.stack([img, img + 1000, img + 2000], axis=2)
    pts = np.array([[float(a) for a in p] for p in case["pts"]])
    if case["int"]:
        pts = pts.astype(int)
    keep = pts.copy()
    before = img.copy()
    out = np.asarray(get_cutout(pts, img))
    x0, x1 = int(min(p[0] for p in pts)), int(max(p[0] for p in pts))
    y0, y1 = int(min(p[1] for p in pts)), int(max(p[1] for p in pts))
    rows = [r for r in range(h) if y0 <= r < y1]
    cols = [c for c in range(w) if x0 <= c < x1]
    n = len(rows) * len(cols)
    check(out.size == n * (1 if case["gray"] else 3), "the cut-out has shape %s, expected %d rows and %d columns", out.shape, len(rows), len(cols))
    if n:
        check(out.shape[:2] == (len(rows), len(cols)), "the cut-out has shape %s, expected %d rows and %d columns", out.shape, len(rows), len(cols))
        for i, r in enumerate(rows):
            for j, c in enumerate(cols):
                check(np.array_equal(out[i, j], before[r, c]), "pixel (%d, %d) of the cut-out is %s, expected %s", i, j, out[i, j], before[r, c])
    check(np.array_equal(img, before) and np.array_equal(pts, keep), "the arguments were changed")
    outside = x0 < 0 or y0 < 0 or x1 > w or y1 > h
    if n and (outside or not case["int"]):
        rec.nontrivial = True
    if outside:
        rec.tag("sticks out")
    if not n:
        rec.tag("empty")


@st.composite
def table_case(draw):
    return {"ic": draw(st.integers(0, 3)), "hcm": draw(st.integers(4, 6)), "n": draw(st.integers(1, 3)), "frames": draw(st.lists(
        st.lists(st.integers(0, 3), max_size=4, unique=True), min_size=1, max_size=6)), "jit": draw(st.integers(0, 3)), "rep": draw(st.sampled_from([1] * 8 + [30, 200])), "lanes": draw(st.sampled_from([1] * 8 + [12, 40]))}


def run_table(case, rec):
    from norfair import Detection, Tracker, print_objects_as_table

    tr = Tracker("euclidean", 20, initialization_delay=case["ic"], hit_counter_max=case["hcm"])
    frames = [[4 * k + ln for k in range(case.get("lanes", 1)) for ln in lanes] for lanes in case["frames"]] * (case.get("rep", 1) if case.get("lanes", 1) == 1 else 1)
    for f, lanes in enumerate(frames):
        tr.update([Detection(np.array([[100.0 * ln + case["jit"] * f, 50.0 * k] for k in range(case["n"])])) for ln in lanes])
    objs = list(tr.tracked_objects)
    buf = io.StringIO()
    saved = os.environ.get("COLUMNS")
    os.environ["COLUMNS"] = "200"
    try:
        with contextlib.redirect_stdout(buf):
            print_objects_as_table(objs)
    finally:
        if saved is None:
            del os.environ["COLUMNS"]
        else:
            os.environ["COLUMNS"] = saved
    text = buf.getvalue()
    rows = []
    for line in text.split("\n"):
        cells = [c.strip() for c in re.split("[│┃|]", line)]
        cells = cells[1:-1]
        if len(cells) == 5:
            rows.append(cells)
    check(rows and [c.lower() for c in rows[0]] == ["id", "age", "hit counter", "last distance", "init id"], "unexpected header %s in\n%s", rows[:1], text)
    rows = rows[1:]
    check(len(rows) == len(objs), "%d rows for %d objects:\n%s", len(rows), len(objs), text)
    never = 0
    for o, (oid, age, hits, dist, iid) in zip(objs, rows):
        check(oid == str(o.id) and age == str(o.age) and hits == str(o.hit_counter) and iid == str(o.initializing_id),
              "row %s for an object with id %s, age %s, hit counter %s, initializing id %s", (oid, age, hits, dist, iid), o.id, o.age, o.hit_counter, o.initializing_id)
        if o.last_distance is None:
            never += 1
            check(not re.search("[0-9]", dist), "the last distance of an object that was never matched shows as %r", dist)
        else:
            check(abs(float(dist) - o.last_distance) <= 6e-5, "last distance %r shows as %r", o.last_distance, dist)
    if len(objs) > 1 and never:
        rec.nontrivial = True
    rec.tag("%s objects" % min(len(objs), 2), "never matched" if never else "all matched")


@st.composite
def det_case(draw):
    nd = draw(st.sampled_from([0, 1, 1, 2, 2, 3, 4]))
    shape = [draw(st.integers(1, 4)) for _ in range(nd)]
    if nd == 1:
        shape = [draw(st.sampled_from([2, 3]))]
    if nd == 2:
        shape[1] = draw(st.sampled_from([2, 3]))
    return {"shape": shape, "int": draw(st.booleans())}


def run_det(case, rec):
    from norfair import Detection

    shape = case["shape"]
    pts = np.arange(int(np.prod(shape))).reshape(shape).astype(int if case["int"] else float)
    if len(shape) == 0:
        rec.tag("0-D (not in the domain)")
        return
    if len(shape) > 2:
        try:
            Detection(points=pts)
        except ValueError:
            pass
        else:
            check(False, "points of shape %s were accepted", shape)
        rec.nontrivial = True
        rec.tag("refused")
        return
    data = object()
    emb = np.array([1.0, 2.0])
    d = Detection(points=pts, data=data, label="x", embedding=emb)
    want = pts if len(shape) == 2 else pts.reshape(1, -1)
    check(d.points.shape == want.shape and np.array_equal(d.points, want), "points %s became %s", pts.tolist(), d.points.tolist())
    check(np.array_equal(d.absolute_points, want), "absolute points are %s before any transformation", d.absolute_points.tolist())
    check(d.data is data and d.label == "x" and d.embedding is emb and d.scores is None, "the fields of the detection are not what was given")
    if len(shape) == 1:
        rec.nontrivial = True
    rec.tag("%d-D" % len(shape))


SUBS = [
    Sub("cutout", cut_case, run_cut, 3000, 60000, regressions=[
        {"h": 5, "w": 5, "gray": True, "pts": [[-3, -3], [2, 2]], "int": True}, {"h": 5, "w": 5, "gray": True, "pts": [[-3, -3], [-1, -1]], "int": True}]),
    Sub("table", table_case, run_table, 500, 6000),
    Sub("detection", det_case, run_det, 800, 4000),
]
