"""Association: closest eligible pair first, one-to-one, strictly under the threshold,
initialized objects before initializing ones."""
import math

import numpy as np
from hypothesis import strategies as st

from ..core import Discard, Sub, check
from ..trk import CAMERAS, call_update, camera, detection, filter_factory
from ..util import jitter

RULE = (
    "table: random distance tables (many ties, values at and next to the threshold, infinities, huge "
    "thresholds) drive Tracker.update over several frames; named: random geometry under every "
    "predefined distance; crowd: up to 140 detections (once 300) at random places, under vectorized and scalar distances. Every update is checked against a validity predicate (one-to-one, strictly "
    "below threshold, no blocked pair left without a made pair at least as close, initialized objects "
    "first). Non-trivial: some update offered an object or a detection two or more eligible partners, or a "
    "detection was left over by initialized objects to initializing ones, or more than 32 pairs were matched."
)
ASSUMPTIONS = [
    "the callable distance is deterministic and returns floats",
    "ties may be broken either way",
]

THRS = [1.0, 1.0, 0.5, 100.0, 3.0, 0.0, 2.0 ** 24, 33554432.0, 33554433.0, 1e20, math.inf, -0.5, -1000.0, 0.7, 0.1, 1e-60, 1e60]
K = 8


def values_for(thr):
    base = thr if math.isfinite(thr) else 1e30
    below, above = float(np.nextafter(base, -np.inf)), float(np.nextafter(base, np.inf))
    return [
        # next to the threshold, and next to each other
        0.0, base / 8, base / 4, base / 2, base * 0.75, below, base, above, float(np.nextafter(below, -np.inf)), base / 2 * (1 + 1e-12),
        base * (1 + 1e-9), base * 2, base + 1, math.inf, 1.0, 1e-3,
        # similarities turned around are negative, the most negative one is the closest
        -base, -base * 2, -base / 8, -1.0, -1e-3, -3e4, -math.inf,
    ]


@st.composite
def table_case(draw):
    thr = draw(st.sampled_from(range(len(THRS))))
    hcm = draw(st.integers(1, 6))
    delay = draw(st.integers(0, hcm - 1))
    big = draw(st.integers(0, 9)) == 9
    maxd = 12 if big else 5
    n_frames = draw(st.integers(1, 4 if big else 8))
    frames = []
    for _ in range(n_frames):
        n = draw(st.integers(0, maxd))
        # one byte per cell picks the distance
        rows = draw(st.lists(st.binary(min_size=K, max_size=K), min_size=n, max_size=n))
        frames.append([[list(r) for r in rows], draw(st.sampled_from([1, 1, 1, 2]))])
    return {"thr": thr, "hcm": hcm, "delay": delay, "frames": frames, "cam": draw(CAMERAS)}


class Watch:
    """Observes which objects take which detections in an update."""

    def __init__(self, tracker):
        self.t = tracker

    def before(self):
        self.prev = list(self.t.tracked_objects)
        self.prev_state = [(o, o.id is not None, o.hit_counter >= 0, o.last_detection, o.last_distance) for o in self.prev]

    def pairs(self, dets):
        pos = {id(d): i for i, d in enumerate(dets)}
        made = {}
        for j, (o, _, _, old, _) in enumerate(self.prev_state):
            i = pos.get(id(o.last_detection))
            if o.last_detection is not old:
                check(i is not None, "an object's last detection is not one of this frame's detections")
                made[j] = i
        return made


def judge(made, D, init, alive, thr, rec, eps=0.0):
    """D[i][j]: distance (inf when the pair cannot be made)."""
    n, m = len(D), len(init)
    taken = {}
    for j, i in made.items():
        check(alive[j], "an object that should be gone or hidden was matched")
        check(i not in taken, "detection %d was matched to two objects", i)
        taken[i] = j
        check(D[i][j] < thr + eps, "matched pair at distance %r, threshold %r", D[i][j], thr)
    for stage in (True, False):
        objs = [j for j in range(m) if alive[j] and init[j] == stage]
        cands = [i for i in range(n) if stage or i not in taken or not init[taken[i]]]
        for i in cands:
            elig = [j for j in objs if D[i][j] < thr - eps]
            if len(elig) > 1:
                rec.nontrivial = True
                rec.tag("contested detection")
            for j in elig:
                if made.get(j) == i:
                    continue
                d = D[i][j]
                by_det = i in taken and init[taken[i]] == stage and D[i][taken[i]] <= d + eps
                by_obj = j in made and D[made[j]][j] <= d + eps
                if not (by_det or by_obj):
                    check(
                        False,
                        "detection %d and %s object %d at distance %r (threshold %r) were not matched although "
                        "neither was matched at least as close: matches (object: detection) %s",
                        i, "initialized" if stage else "initializing", j, d, thr, made)
        for j in objs:
            if sum(1 for i in cands if D[i][j] < thr - eps) > 1:
                rec.nontrivial = True
                rec.tag("contested object")
        if not stage and taken and any(init[j] for j in taken.values()) and objs:
            rec.tag("two stages")
            rec.nontrivial = True
    return taken


def run_table(case, rec):
    from norfair import Tracker
    from norfair.filter import NoFilterFactory

    thr = THRS[case["thr"]]
    vals = values_for(thr)
    rec.tag("thr=%g" % thr)
    slot = {}
    keep = []
    state = {"rows": None}

    def dist(det, obj):
        check(hasattr(det, "points") and hasattr(obj, "estimate"), "distance called with %r, %r", det, obj)
        return vals[state["rows"][det.data][slot[id(obj)] % K] % len(vals)]

    t = Tracker(
        dist, thr, hit_counter_max=case["hcm"], initialization_delay=case["delay"], filter_factory=NoFilterFactory()
    )
    for f, (rows, period) in enumerate(case["frames"]):
        period = min(period, case["hcm"])
        dets = [detection([[i, 0]], data=i) for i in range(len(rows))]
        state["rows"] = rows
        w = Watch(t)
        w.before()
        call_update(t, 0, dets, period, **camera(case, f))
        objs = [s[0] for s in w.prev_state]
        D = [[vals[rows[i][slot[id(o)] % K] % len(vals)] for o in objs] for i in range(len(rows))]
        made = w.pairs(dets)
        judge(made, D, [s[1] for s in w.prev_state], [s[2] for s in w.prev_state], thr, rec)
        for j, (o, _, _, _, old) in enumerate(w.prev_state):
            if j in made:
                check(o.last_distance is not None and float(o.last_distance) == D[made[j]][j],
                      "last_distance is %r, the match was at distance %r", o.last_distance, D[made[j]][j])
            else:
                check(o.last_distance is old or o.last_distance == old, "last_distance changed without a match")
        if made:
            rec.tag("matched")
        for o in t.tracked_objects:
            if id(o) not in slot:
                slot[id(o)] = len(keep)
                keep.append(o)
                check(o.last_distance is None, "a new object has last_distance %r", o.last_distance)


# --- named distances --------------------------------------------------------------------------
NAMES = ["frobenius", "mean_euclidean", "mean_manhattan", "euclidean", "cityblock", "chebyshev", "sqeuclidean", "iou"]


def formula(name, a, b):
    """Independent definitions on flat coordinate lists (python floats)."""
    diff = [x - y for x, y in zip(a, b)]
    if name in ("frobenius", "euclidean"):
        return math.sqrt(math.fsum(d * d for d in diff))
    if name == "sqeuclidean":
        return math.fsum(d * d for d in diff)
    if name == "cityblock":
        return math.fsum(abs(d) for d in diff)
    if name == "chebyshev":
        return max(abs(d) for d in diff)
    pts = [(diff[k], diff[k + 1]) for k in range(0, len(diff), 2)]
    if name == "mean_euclidean":
        return math.fsum(math.hypot(*p) for p in pts) / len(pts)
    if name == "mean_manhattan":
        return math.fsum(abs(p[0]) + abs(p[1]) for p in pts) / len(pts)
    if name == "iou":
        w = max(0.0, min(a[2], b[2]) - max(a[0], b[0]))
        h = max(0.0, min(a[3], b[3]) - max(a[1], b[1]))
        inter = w * h
        return 1 - inter / ((a[2] - a[0]) * (a[3] - a[1]) + (b[2] - b[0]) * (b[3] - b[1]) - inter)
    raise KeyError(name)


@st.composite
def named_case(draw):
    name = draw(st.sampled_from(NAMES))
    pts = 2 if name == "iou" else draw(st.integers(1, 3))
    hcm = draw(st.integers(1, 6))
    frames = draw(
        st.lists(
            st.lists(st.lists(st.integers(0, 12), min_size=2 * pts, max_size=2 * pts), min_size=0, max_size=5),
            min_size=2, max_size=8,
        )
    )
    labels = draw(st.sampled_from([None, None, 2]))
    return {
        "name": name, "pts": pts, "hcm": hcm, "delay": draw(st.integers(0, hcm - 1)), "frames": frames,
        "thr": draw(st.integers(1, 24)), "filter": draw(st.sampled_from(["opt", "no", "fpy"])), "labels": labels,
    }


def run_named(case, rec):
    from norfair import Tracker

    name, pts = case["name"], case["pts"]
    thr = case["thr"] / 24 if name == "iou" else case["thr"] / 2 * (case["thr"] / 2 if name == "sqeuclidean" else 1)
    thr += 0.0131
    t = Tracker(name, thr, hit_counter_max=case["hcm"], initialization_delay=case["delay"],
                filter_factory=filter_factory([case["filter"]]))
    rec.tag(name)
    for f, frame in enumerate(case["frames"]):
        dets = []
        for i, c in enumerate(frame):
            c = [v + 0.5 * jitter(f, i, k) for k, v in enumerate(c)]
            if name == "iou":
                c = [c[0], c[1], c[0] + 1 + c[2], c[1] + 1 + c[3]]
            label = None if case["labels"] is None else (i + f) % case["labels"]
            dets.append(detection([c[2 * k: 2 * k + 2] for k in range(pts)], label=label))
        w = Watch(t)
        w.before()
        pred = [np.asarray(o.estimate + o.estimate_velocity).ravel().tolist() for o in w.prev]
        if name == "iou" and any(p[0] >= p[2] or p[1] >= p[3] for p in pred):
            raise Discard()
        call_update(t, 0, dets, 1)
        objs = [s[0] for s in w.prev_state]
        D = [
            [formula(name, d.points.ravel().tolist(), pred[j]) if d.label == o.label else math.inf
             for j, o in enumerate(objs)]
            for d in dets
        ]
        made = w.pairs(dets)
        judge(made, D, [s[1] for s in w.prev_state], [s[2] for s in w.prev_state], thr, rec,
              eps=1e-4 * max(1.0, thr))
        for j, i in made.items():
            ld = float(objs[j].last_distance)
            check(abs(ld - D[i][j]) <= 1e-4 * max(1.0, D[i][j]), "last_distance %r, expected %r", ld, D[i][j])
            rec.tag("matched")


# --- crowds -----------------------------------------------------------------------------------
@st.composite
def crowd_case(draw):
    """Many objects and detections at once: only a seed and sizes are drawn."""
    return {
        "seed": draw(st.integers(0, 10 ** 6)),
        "sizes": draw(st.lists(st.integers(0, 140), min_size=2, max_size=4)),
        "spread": draw(st.sampled_from([20, 60, 200, 1000])),
        "thr": draw(st.sampled_from([1.0, 4.0, 15.0, 60.0, 5000.0])),
        "delay": draw(st.integers(0, 3)),
        "name": draw(st.sampled_from(["euclidean", "cityblock", "sqeuclidean", "function"])),
        "den": draw(st.sampled_from([1, 1, 8, 100])),
    }


def run_crowd(case, rec):
    from norfair import Tracker
    from norfair.filter import NoFilterFactory

    rng = np.random.default_rng(case["seed"])
    name, thr = case["name"], case["thr"]
    dist = name
    if name == "function":
        name = "cityblock"

        def dist(d, o):
            return float(np.abs(d.points - o.estimate).sum())

    t = Tracker(dist, thr, hit_counter_max=5, initialization_delay=case["delay"], filter_factory=NoFilterFactory(), past_detections_length=0)
    for f, n in enumerate(case["sizes"]):
        pts = rng.integers(0, case["spread"] * case["den"], (n, 1, 2)) / case["den"]
        dets = [detection(p) for p in pts]
        w = Watch(t)
        w.before()
        call_update(t, 0, dets, 2)
        objs = [s[0] for s in w.prev_state]
        made = w.pairs(dets)
        if not objs or not dets:
            check(not made, "matches without objects or detections")
            continue
        # NoFilter: an object is where its previous detection was
        where = np.array([s[3].points[0] for s in w.prev_state])
        diff = pts[:, 0][:, None, :] - where[None]
        D = {"euclidean": lambda: np.sqrt((diff ** 2).sum(2)), "cityblock": lambda: np.abs(diff).sum(2), "sqeuclidean": lambda: (diff ** 2).sum(2)}[name]()
        judge_arrays(made, D, np.array([s[1] for s in w.prev_state]), np.array([s[2] for s in w.prev_state]), thr)
        if len(made) > 32:
            rec.nontrivial = True
            rec.tag("over 32 matches")
        rec.tag("matches" if made else "no match")


def judge_arrays(made, D, init, alive, thr):
    """What judge() says, for many."""
    n, m = D.shape
    eps = 1e-6 * np.maximum(1.0, np.abs(D))
    of_det = np.full(n, -1)
    of_obj = np.full(m, -1)
    for j, i in made.items():
        check(alive[j], "an object that should be gone was matched")
        check(of_det[i] < 0, "detection %d was matched to two objects", i)
        check(D[i, j] < thr + eps[i, j], "matched pair at distance %r, threshold %r", D[i, j], thr)
        of_det[i], of_obj[j] = j, i
    dd = np.where(of_det >= 0, D[np.arange(n), of_det], np.inf)
    do = np.where(of_obj >= 0, D[of_obj, np.arange(m)], np.inf)
    for stage in (True, False):
        objs = alive & (init == stage)
        det_here = (of_det >= 0) & (init[of_det] == stage)
        cands = np.ones(n, bool) if stage else ~((of_det >= 0) & init[of_det])
        want = cands[:, None] & objs[None] & (D < thr - eps)
        excused = (det_here & True)[:, None] & (dd[:, None] <= D + eps) | (do[None] <= D + eps)
        bad = np.argwhere(want & ~excused)
        if len(bad):
            i, j = bad[0]
            check(False, "detection %d and %s object %d at distance %r (threshold %r) were not matched although neither was matched at least as close; %d matches",
                  i, "initialized" if stage else "initializing", j, D[i, j], thr, len(made))


REG = [
    # threshold + 1 is not representable: used to loop forever
    {"thr": 8, "hcm": 3, "delay": 0, "frames": [[[[0] * 8], 1], [[[1] * 8], 1], [[[1] * 8, [2] * 8], 1]]},
    {"thr": 10, "hcm": 3, "delay": 0, "frames": [[[[0] * 8, [1] * 8], 1], [[[1] * 8, [2] * 8], 1]]},
]

SUBS = [
    Sub("table", table_case, run_table, 7000, 200000, REG),
    Sub("named", named_case, run_named, 2400, 60000),
    Sub("crowd", crowd_case, run_crowd, 200, 6000, [{"seed": 1, "sizes": [300, 300, 280], "spread": 1000, "thr": 15.0, "delay": 0, "name": "euclidean", "den": 8}]),
]
