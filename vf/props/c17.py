"""IoU distance against exact rational arithmetic."""
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from ..core import Sub, check
from ..util import laid_out, layouts

RULE = (
    "Matrices of 0-5 by 0-5 (and up to 150 by 40) valid boxes built around shared edges (identical, nested, touching, overlapping, disjoint; "
    "negative and huge coordinates; integer and float arrays) compared cell by cell with exact rational 1 - IoU, "
    "with symmetry, range, 0 for identical, 1 for disjoint; the same boxes as Detections / TrackedObjects through "
    "get_distance_by_name('iou'). Non-trivial: a pair overlaps partially."
)

KINDS = [("i", 1, 0), ("f", 1, 0), ("f", 8, 0), ("f", 1, 100000), ("i", 1, 20000), ("f", 1000, 0), ("u", 1, 50),
         ("uint8", 1, 15), ("uint8", 1, 15), ("int8", 1, 0), ("int16", 1, 0), ("uint16", 1, 20), ("uint32", 1, 20), ("int32", 1, 0), ("float32", 1, 0), ("i", 1, 0)]
BIG = {"uint8": 6, "int8": 4, "int16": 1000, "uint16": 1400, "int32": 50000, "uint32": 100000, "float32": 1000}


@st.composite
def case_(draw):
    kind = draw(st.integers(0, len(KINDS) - 1))
    edge = st.integers(-12, 12)
    box = st.tuples(edge, edge, st.integers(1, 12), st.integers(1, 12)).map(lambda b: [b[0], b[1], b[0] + b[2], b[1] + b[3]])
    a = draw(st.lists(box, min_size=0, max_size=5))
    b = draw(st.lists(st.one_of(box, st.sampled_from(a)) if a else box, min_size=0, max_size=5))
    return {"kind": kind, "a": a, "b": b, "scale": draw(st.sampled_from([1, 1, 1, 7, 1000])), "lay": draw(st.tuples(layouts(), layouts()).map(list))}


def exact(p, q):
    w = max(Fraction(0), min(p[2], q[2]) - max(p[0], q[0]))
    h = max(Fraction(0), min(p[3], q[3]) - max(p[1], q[1]))
    inter = w * h
    union = (p[2] - p[0]) * (p[3] - p[1]) + (q[2] - q[0]) * (q[3] - q[1]) - inter
    return 1 - inter / union, inter > 0


def many(case):
    """Up to 150 boxes of the smallest type's range, on shared edges."""
    rng = np.random.RandomState(case["many"])

    def boxes(n):
        lo = rng.randint(-12, 13, size=(n, 2))
        return np.hstack([lo, lo + rng.randint(1, 13, size=(n, 2))]).tolist()
    return boxes(case["na"]), boxes(case["nb"])


COUNTS = st.one_of(st.integers(1, 40), st.sampled_from([16, 17, 32, 33, 64, 65, 100, 128, 129, 150]))


@st.composite
def many_case(draw):
    na = draw(COUNTS)
    nb = draw(COUNTS if na <= 40 else st.integers(1, 40))
    if draw(st.booleans()):
        na, nb = nb, na
    return {"kind": draw(st.integers(0, len(KINDS) - 1)), "many": draw(st.integers(0, 10 ** 6)), "na": na, "nb": nb, "scale": draw(st.sampled_from([1, 1, 1, 7, 1000]))}


def run(case, rec):
    if "many" in case:
        a, b = many(case)
        case = dict(case, a=a, b=b)
        rec.tag("many")
    from norfair import Detection
    from norfair import distances as D
    from .c16 import tracked

    kind, den, off = KINDS[case["kind"]]
    if kind == "u":
        off, scale = 50, 1
    elif kind in BIG:
        # up to the largest coordinates of the type
        scale = BIG[kind] if case["scale"] > 1 else 1
        off = off * scale
        rec.tag(kind)
    else:
        scale = case["scale"] if kind != "i" or case["scale"] != 7 else 10 ** 8

    def conv(boxes):
        fr = [[Fraction(v * scale, den) + off for v in b] for b in boxes]
        a = np.array([[float(v) for v in b] for b in fr], dtype=float).reshape(len(boxes), 4)
        return fr, a.astype({"i": np.int64, "f": float, "u": np.int32}.get(kind, kind))

    fa, a = conv(case["a"])
    fb, b = conv(case["b"])
    if kind == "f":  # the exact value of the floats actually used
        fa, fb = [[Fraction(v) for v in r] for r in a.tolist()], [[Fraction(v) for v in r] for r in b.tolist()]
    lay = case.get("lay") or (None, None)
    a, b = laid_out(a, lay[0]), laid_out(b, lay[1])
    for how in lay:
        if how:
            rec.tag(how)
    ka, kb = a.copy(), b.copy()
    for fn in (D.iou, D.iou_opt):
        got, back = np.asarray(fn(a, b)), np.asarray(fn(b, a))
        check(got.shape == (len(a), len(b)), "iou of %d and %d boxes has shape %s", len(a), len(b), got.shape)
        check(back.shape == (len(b), len(a)), "iou of %d and %d boxes has shape %s", len(b), len(a), back.shape)
        for i, p in enumerate(fa):
            for j, q in enumerate(fb):
                want, over = exact(p, q)
                g = float(got[i, j])
                check(abs(g - float(want)) <= 1e-9, "iou distance of %s and %s is %r, expected %r", a[i].tolist(), b[j].tolist(), g, float(want))
                check(-1e-12 <= g <= 1 + 1e-12, "iou distance %r out of range", g)
                check(abs(g - float(back[j, i])) <= 1e-12, "iou distance is not symmetric: %r, %r", g, float(back[j, i]))
                if not over:
                    check(g == 1, "disjoint boxes at distance %r", g)
                    rec.tag("disjoint")
                elif p == q:
                    check(abs(g) <= 1e-12, "identical boxes at distance %r", g)
                    rec.tag("identical")
                elif 0 < want < 1:
                    rec.nontrivial = True
                    rec.tag("overlap")
    check(np.array_equal(a, ka) and np.array_equal(b, kb), "iou changed its inputs")
    if len(a) and len(b):
        dets = [Detection(p.reshape(2, 2).copy()) for p in a]
        objs = [tracked([[q[:2], q[2:]]]) for q in b]
        for name in ("iou", "iou_opt"):
            m = np.asarray(D.get_distance_by_name(name).get_distances(objs, dets))
            check(m.shape == (len(a), len(b)), "matrix shape %s", m.shape)
            for i, p in enumerate(fa):
                for j, q in enumerate(fb):
                    want = float(exact(p, q)[0])
                    check(abs(float(m[i, j]) - want) <= 1e-6, "%s matrix [%d, %d] is %r, expected %r", name, i, j, float(m[i, j]), want)


SUBS = [Sub("exact", case_, run, 5000, 120000), Sub("many", many_case, run, 240, 6000)]
