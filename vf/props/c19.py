"""Coordinate transformations: documented formula, exact inverses, purity."""
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from ..core import Discard, Sub, check
from ..util import check_near, laid_out, layouts

RULE = (
    "TranslationTransformation with random vectors and HomographyTransformation with random well conditioned matrices "
    "(scaled by any non-zero factor, affine, projective, translations) on 0-8 random points (float and int arrays): "
    "abs_to_rel is computed in exact rational arithmetic, rel_to_abs must undo it and be undone by it, the order and number "
    "of points is kept, inputs are not changed, a point mapped to infinity gives finite numbers, and the two agree when the "
    "homography is a translation. Non-trivial: a projective matrix (last row not (0, 0, c)) and at least two points."
)

coef = st.integers(-16, 16)


@st.composite
def hom_case(draw):
    kind = draw(st.sampled_from(["proj", "proj", "affine", "trans"]))
    a = [16 + draw(st.integers(-6, 6)), draw(st.integers(-6, 6)), draw(st.integers(-6, 6)), 16 + draw(st.integers(-6, 6))]
    t = [draw(st.integers(-200, 200)), draw(st.integers(-200, 200))]
    p = [0, 0]
    if kind == "proj":
        p = [draw(st.integers(-4, 4)), draw(st.integers(-4, 4))]
    if kind == "trans":
        a = [16, 0, 0, 16]
    pts = draw(st.lists(st.tuples(st.integers(-400, 400), st.integers(-400, 400)).map(list), min_size=0, max_size=8))
    many = draw(st.sampled_from([0] * 9 + [draw(st.integers(10, 90))]))
    return {"many": many, "a": a, "t": t, "p": p, "scale": draw(st.sampled_from([1, 1, 2, -1, 0.25, -3, 1024, 2.0 ** -20, -(2.0 ** -30), 2.0 ** 30])), "pts": pts,
            "lay": draw(st.tuples(layouts(), layouts()).map(list)), "den": draw(st.sampled_from([1, 4, 8]))}


def run_hom(case, rec):
    from norfair.camera_motion import CoordinatesTransformation, HomographyTransformation

    a, t, p, s = case["a"], case["t"], case["p"], Fraction(case["scale"])
    # exactly representable in binary
    M = [[Fraction(a[0], 16), Fraction(a[1], 16), Fraction(t[0])], [Fraction(a[2], 16), Fraction(a[3], 16), Fraction(t[1])],
         [Fraction(p[0], 16384), Fraction(p[1], 16384), Fraction(1)]]
    M = [[v * s for v in r] for r in M]
    Mf = np.array([[float(v) for v in r] for r in M])
    pts = np.array([[x / case["den"], y / case["den"]] for x, y in case["pts"]], dtype=float).reshape(-1, 2)
    if case.get("many") and len(pts):
        more = np.arange(case["many"])[:, None] * [1, 3] % 16 / 2.0 ** 20
        pts = (pts[np.arange(case["many"]) % len(pts)] + (more if case["den"] > 1 else 0))
        rec.tag("many points")
    lay = case.get("lay") or (None, None)
    Mf, pts = laid_out(Mf, lay[0]), laid_out(pts, lay[1])
    if lay[0] or lay[1]:
        rec.tag("layout")
    keepM, keep = Mf.copy(), pts.copy()
    T = HomographyTransformation(Mf)
    check(isinstance(T, CoordinatesTransformation), "HomographyTransformation is not a CoordinatesTransformation")
    exp, bad = [], False
    for x, y in pts.tolist():
        x, y = Fraction(x), Fraction(y)
        u, v, w = (r[0] * x + r[1] * y + r[2] for r in M)
        if abs(w) < abs(s) / 4:
            bad = True
            break
        exp.append([float(u / w), float(v / w)])
    det = a[0] * a[3] - a[1] * a[2]
    if abs(det) < 60 or abs(np.linalg.det(Mf / float(s))) < 0.2:
        raise Discard()
    out = np.asarray(T.abs_to_rel(pts))
    check(np.array_equal(pts, keep) and np.array_equal(Mf, keepM), "abs_to_rel changed its input")
    check(out.shape == pts.shape, "%d points became %s", len(pts), out.shape)
    if bad:
        check(np.isfinite(out).all(), "abs_to_rel is not finite: %s", out.tolist())
        return
    exp = np.array(exp, float).reshape(-1, 2)
    check_near(out, exp, "abs_to_rel", 1e-9, 1e-7)
    keep_out = out.copy()
    back = np.asarray(T.rel_to_abs(out))
    check(np.array_equal(out, keep_out), "rel_to_abs changed its input")
    scale = max(1.0, np.abs(exp).max() if exp.size else 0)
    check_near(back, pts, "rel_to_abs(abs_to_rel(p))", 1e-7, 1e-7 * scale)
    # the other way around, from points known to have a preimage
    again = np.asarray(T.abs_to_rel(back))
    check_near(again, out, "abs_to_rel(rel_to_abs(p))", 1e-7, 1e-7 * scale)
    for k in range(len(pts)):  # each point on its own
        check_near(T.abs_to_rel(pts[k:k + 1])[0], out[k], "abs_to_rel of one point", 1e-9, 1e-9 * scale)
        check_near(T.rel_to_abs(out[k:k + 1])[0], back[k], "rel_to_abs of one point", 1e-9, 1e-9 * scale)
    if case["den"] == 1:
        check_near(T.abs_to_rel(pts.astype(int)), exp, "abs_to_rel of integer points", 1e-9, 1e-7)
    if a == [16, 0, 0, 16] and p == [0, 0]:
        rec.tag("translation")
        check_near(out, pts + np.array(t, float), "homography that is a translation", 1e-9, 1e-9)
    rec.nontrivial = p != [0, 0] and len(pts) > 1


def run_inf(case, rec):
    """Points on the line that is mapped to infinity (or to zero weight) give numbers, not an error."""
    from norfair.camera_motion import HomographyTransformation

    x, y, k = case
    M = np.array([[1.0, 0, 0], [0, 1, 0], [k, 0, 0.0 - k * x]])
    if x == 0 or k == 0:
        raise Discard()
    T = HomographyTransformation(M)
    pts = np.array([[x, y], [x + 2, y], [x, y + 1]], float)
    with np.errstate(all="ignore"):
        for out in (T.abs_to_rel(pts), T.rel_to_abs(pts)):
            out = np.asarray(out)
            check(out.shape == (3, 2), "shape %s", out.shape)
            check(np.isfinite(out).all(), "a point of weight zero gives %s", out.tolist())
    check_near(T.abs_to_rel(pts)[1], np.array([x + 2, y]) / (2 * k), "the other points", 1e-9, 1e-9)
    rec.nontrivial = True


def inf_case():
    return st.tuples(st.integers(-50, 50), st.integers(-50, 50), st.sampled_from([1, 2, -1, 0.5])).map(list)


@st.composite
def tr_case(draw):
    n, dim = draw(st.integers(1, 6)), 2
    return {"v": [draw(st.integers(-8000, 8000)) / 8 for _ in range(2)],
            "pts": draw(st.lists(st.lists(st.integers(-800, 800), min_size=dim, max_size=dim), min_size=n, max_size=n)),
            "int": draw(st.booleans()), "lay": draw(layouts())}


def run_tr(case, rec):
    from norfair.camera_motion import CoordinatesTransformation, TranslationTransformation

    v = np.array(case["v"])
    T = TranslationTransformation(v)
    check(isinstance(T, CoordinatesTransformation), "TranslationTransformation is not a CoordinatesTransformation")
    pts = np.array(case["pts"], dtype=int if case["int"] else float)
    pts = laid_out(pts, case.get("lay"))
    keep = pts.copy()
    a = np.asarray(T.abs_to_rel(pts))
    check_near(a, [[p[0] + v[0], p[1] + v[1]] for p in keep.tolist()], "abs_to_rel", 0, 1e-9)
    r = np.asarray(T.rel_to_abs(pts))
    check_near(r, [[p[0] - v[0], p[1] - v[1]] for p in keep.tolist()], "rel_to_abs", 0, 1e-9)
    check_near(T.rel_to_abs(a), keep, "rel_to_abs(abs_to_rel(p))", 0, 1e-9)
    check_near(T.abs_to_rel(r), keep, "abs_to_rel(rel_to_abs(p))", 0, 1e-9)
    check(np.array_equal(pts, keep) and np.array_equal(v, np.array(case["v"])), "a transformation changed its input")
    rec.nontrivial = len(pts) > 1 and case["v"][0] != 0 and case["v"][1] != 0 and case["v"][0] != case["v"][1]


SUBS = [
    Sub("homography", hom_case, run_hom, 5000, 120000),
    Sub("infinity", inf_case, run_inf, 400, 4000),
    Sub("translation", tr_case, run_tr, 2000, 40000),
]
