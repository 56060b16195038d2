"""Building blocks of the tracker checks: labels, detections, configurations, scripts."""
import numpy as np
from hypothesis import strategies as st

from .core import check, fail

# --- labels -----------------------------------------------------------------------------------
# A label is written in a case as [kind, value].
LABELS = [
    ["n", 0], ["s", "a"], ["s", "b"], ["i", 1], ["i", 2], ["s", "1"], ["s", "None"], ["b", True],
    ["f", 1.0], ["f", 1.5], ["t", [1, "a"]], ["t", [1, 2]], ["s", ""], ["i", 0], ["s", "a" * 40], ["fs", [1, 2]],
    ["s", "True"], ["s", "1.5"], ["i", -1], ["s", "(1, 2)"],
    ["i", 300], ["i", 10 ** 20],
    ["i", -2], ["i", 2 ** 61 - 1], ["i", 2 ** 61], ["f", -1.0], ["t", [-1, "a"]], ["t", [-2, "a"]], ["i", 301], ["s", "A"], ["s", "a "], ["f", 0.5],
]
# labels that are easily taken for one another: equal hashes, texts, truth values, equal numbers
ALIKE = [[18, 22], [13, 23], [3, 24], [26, 27], [3, 5, 7, 8], [0, 6], [12, 13, 0], [1, 29, 30], [9, 17], [20, 28], [11, 19], [18, 25], [31, 9, 13, 3]]


@st.composite
def label_choice(draw, min_size, max_size):
    """Positions in LABELS, often of labels that are alike."""
    if draw(st.integers(0, 2)) == 0:
        family = list(draw(st.permutations(draw(st.sampled_from(ALIKE)))))
        out = (family + draw(st.lists(st.integers(0, len(LABELS) - 1), max_size=1)))[:max_size]
        return out
    return draw(st.lists(st.integers(0, len(LABELS) - 1), min_size=min_size, max_size=max_size))


def label_of(code):
    if code is None:
        return None
    kind, v = code
    if kind == "n":
        return None
    # equal labels are different instances wherever Python allows it
    if kind == "s":
        return "".join(list(v))
    if kind == "i":
        return int(str(v))
    if kind == "b":
        return bool(v)
    if kind == "f":
        return float(v)
    if kind == "t":
        return tuple(v)
    if kind == "fs":
        return frozenset(v)
    raise KeyError(kind)


def filter_factory(spec):
    from norfair.filter import (
        FilterPyKalmanFilterFactory,
        NoFilterFactory,
        OptimizedKalmanFilterFactory,
    )

    kind = spec[0]
    if kind == "opt":
        return OptimizedKalmanFilterFactory(*spec[1:])
    if kind == "fpy":
        return FilterPyKalmanFilterFactory(*spec[1:])
    if kind == "no":
        return NoFilterFactory()
    raise KeyError(kind)


def detection(pts, scores=None, data=None, label=None, embedding=None):
    from norfair import Detection

    return Detection(
        points=np.array(pts, dtype=float),
        scores=None if scores is None else np.array(scores, dtype=float),
        data=data,
        label=label,
        embedding=embedding,
    )


def same_actor(det, obj):
    """Distance that only pairs detections and objects of the same actor (see `data`)."""
    return 0.25 if det.data[0] == obj.last_detection.data[0] else 1e6


def ids_of(objs):
    return [o.id for o in objs]


# --- strategies -------------------------------------------------------------------------------
def small_float(lo, hi, den=8):
    """Multiples of 1/den in [lo, hi]; exact in binary and good for shrinking."""
    return st.integers(int(lo * den), int(hi * den)).map(lambda v: v / den)


FILTERS = st.sampled_from([["opt"], ["opt"], ["no"], ["fpy"]])


@st.composite
def counters(draw, max_hcm=9):
    """hit_counter_max, initialization_delay (None = default)."""
    hcm = draw(st.integers(1, max_hcm))
    delay = draw(st.one_of(st.none(), st.integers(0, hcm - 1)))
    return hcm, delay


def effective_delay(hcm, delay):
    return int(hcm / 2) if delay is None else delay


def script(n_actors, max_period=3, max_frames=40, min_frames=1, presence=None):
    """A list of frames [mode, period, [actors present]]; mode 0: list, 1: update() without
    detections, 2: update(None), 3: update([])."""
    masks = presence if presence is not None else st.integers(0, 2 ** n_actors - 1)
    frame = st.tuples(
        st.sampled_from([0, 0, 0, 0, 0, 0, 1, 2, 3]),
        st.one_of(st.just(1), st.integers(1, max_period)),
        masks,
    ).map(lambda t: [t[0], t[1], [a for a in range(n_actors) if t[2] >> a & 1] if t[0] == 0 else []])
    return st.lists(frame, min_size=min_frames, max_size=max_frames)


@st.composite
def runs(draw, n_actors, max_period=3, max_runs=10, max_len=12, modes=True, min_runs=1):
    """Frames made of runs: within a run the set of present actors stays the same. Gives long
    appearances and long gaps, which independent presence bits hardly ever produce."""
    frames = []
    for mask, length, period, mode in draw(
        st.lists(
            st.tuples(
                st.integers(0, 2 ** n_actors - 1),
                st.integers(1, max_len),
                st.one_of(st.just(1), st.integers(1, max_period)),
                st.sampled_from([0, 0, 0, 1, 2, 3]),
            ),
            min_size=min_runs,
            max_size=max_runs,
        )
    ):
        actors = [a for a in range(n_actors) if mask >> a & 1]
        m = 0 if actors else (mode if modes else 3)
        for _ in range(length):
            frames.append([m, period, actors])
    return frames


# sizes of crowds: [things, frames]
SIZES = [[1, 400], [2, 300], [3, 200], [12, 60], [40, 20], [130, 8], [270, 5]]


@st.composite
def crowds(draw, sizes=SIZES):
    """A crowd in short: expanded by `crowd`."""
    n, frames = draw(st.sampled_from(sizes))
    return {"seed": draw(st.integers(0, 999)), "n": max(1, n - draw(st.integers(0, n // 8))), "length": draw(st.integers(max(2, frames // 2), frames)),
            "away": draw(st.sampled_from([0, 1, 3])), "gap": draw(st.sampled_from([9, 30])), "step": draw(st.sampled_from([1, 2, 4]))}


def crowd(c):
    """Frames of [thing, x, y] in any order: things on a grid that wander about and go away now and then."""
    rng = np.random.RandomState(c["seed"])
    n = c["n"]
    side = int(np.ceil(np.sqrt(n)))
    home = np.array([[(i % side) * c["gap"], (i // side) * c["gap"]] for i in range(n)])
    pos = home.copy()
    away = np.zeros(n, int)
    frames = []
    for _ in range(c["length"]):
        pos = np.clip(pos + rng.randint(-c["step"], c["step"] + 1, size=(n, 2)), home - 40, home + 40)
        leave = (away == 0) & (rng.rand(n) < 0.03 * c["away"])
        away = np.where(leave, rng.randint(1, 14, n), np.maximum(away - 1, 0))
        frames.append([[int(i), int(pos[i][0]), int(pos[i][1])] for i in rng.permutation(n) if not away[i]])
    return frames


def call_update(tracker, mode, dets, period, default_period_ok=True, **kw):
    if mode == 1:
        r = tracker.update(period=period, **kw)
    elif mode == 2:
        r = tracker.update(None, period, **kw)
    elif mode == 3:
        r = tracker.update([], period=period, **kw)
    elif period == 1:
        r = tracker.update(dets, **kw)
    else:
        r = tracker.update(detections=dets, period=period, **kw)
    check(isinstance(r, (list, tuple)), "update returned %r, not a list", type(r))
    return r


CAMERAS = st.sampled_from(["none", "none", "none", "still", "moving"])


def camera(case, f):
    """Arguments of update for the camera of the case: none, one that stands still, one that moves along."""
    how = case.get("cam", "none")
    if how == "none":
        return {}
    from norfair.camera_motion import TranslationTransformation

    return {"coord_transformations": TranslationTransformation(np.array([0.0, 0.0] if how == "still" else [3.0 * f - 5, 2.0 * (f % 3)]))}


def identity_index(objs, o):
    for i, x in enumerate(objs):
        if x is o:
            return i
    return None


def by_identity(objs):
    return {id(o): o for o in objs}
