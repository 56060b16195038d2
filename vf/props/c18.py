"""Distance matrices: shape, labels, agreement with the pointwise / scipy definition."""
import numpy as np
from hypothesis import strategies as st
from scipy.spatial.distance import cdist

from ..core import Discard, Sub, check, fail
from ..trk import LABELS, detection, label_choice, label_of
from ..util import jitter

RULE = (
    "ScalarDistance, VectorizedDistance, ScipyDistance (with kwargs) and every name accepted by get_distance_by_name over "
    "0-5 (up to 80) Detections or TrackedObjects against 0-5 (up to 80) TrackedObjects of mixed labels (None, strings, ints, floats, tuples, "
    "strings that look like other labels). Each cell: infinite when the labels differ, else the distance of that pair "
    "computed alone with scipy / the callable, argument order included. Non-trivial: two labels present on both sides, "
    "interleaved."
)

SCIPY = {}


def scipy_ok(name):
    if name not in SCIPY:
        try:
            cdist(np.array([[1.0, 2.0]]), np.array([[2.0, 1.0]]), metric=name)
            SCIPY[name] = True
        except ValueError:
            SCIPY[name] = False
        except Exception:
            SCIPY[name] = True
    return SCIPY[name]


# pairwise metrics: the value of a pair does not depend on the other rows
PAIRWISE = ["braycurtis", "canberra", "chebyshev", "cityblock", "correlation", "cosine", "euclidean", "hamming",
            "jensenshannon", "minkowski", "sqeuclidean"]
BOOL = ["dice", "jaccard", "kulczynski1", "matching", "rogerstanimoto", "russellrao", "sokalmichener", "sokalsneath", "yule"]
KW = [["minkowski", {"p": 3}], ["minkowski", {"p": 1}], ["euclidean", {}], ["cityblock", {}], ["seuclidean", {"V": 1}], ["minkowski", {"p": 1, "w": 1}], ["cosine", {"w": 1}],
      ["euclidean", {"w": 1}], ["mahalanobis", {"VI": 1}]]


@st.composite
def case_(draw):
    n = draw(st.integers(1, 3))
    labs = draw(label_choice(draw(st.sampled_from([1, 2, 2])), 3))
    few = draw(st.sampled_from([0, 3, 3]))
    item = st.tuples(st.integers(0, len(labs) - 1), st.lists(st.integers(1, 40), min_size=2 * n, max_size=2 * n)).map(list)
    kind = draw(st.sampled_from(["name", "name", "bool", "kw", "vec", "scalar"]))
    which = 0
    if kind == "name":
        which = draw(st.sampled_from(PAIRWISE))
    elif kind == "bool":
        which = draw(st.sampled_from(BOOL))
    elif kind == "kw":
        which = draw(st.integers(0, len(KW) - 1))
    return {"labels": labs, "n": n, "cands": draw(st.lists(item, min_size=few, max_size=5)), "objs": draw(st.lists(item, min_size=few, max_size=5)),
            "kind": kind, "which": which, "tracked": draw(st.booleans()), "sub": draw(st.integers(0, 3)) == 0,
            "again": draw(st.one_of(st.just([]), st.lists(st.tuples(st.booleans(), st.integers(0, 4), st.booleans()).map(list), max_size=2)))}


COUNTS = st.one_of(st.integers(6, 80), st.sampled_from([15, 16, 17, 31, 32, 33, 63, 64, 65]))


@st.composite
def many_case(draw):
    """Crowds: up to 100 by 40, of up to 12 labels."""
    case = draw(case_())
    case["labels"] = [0] if draw(st.booleans()) else draw(label_choice(draw(st.sampled_from([1, 1, 2, 4, 8])), 12))
    a, b = draw(COUNTS), draw(COUNTS)
    case.update(many=draw(st.integers(0, 10 ** 6)), na=a, nb=b, cands=[], objs=[], again=[])
    return case


def expand(case):
    rng = np.random.RandomState(case["many"])

    def items(n):
        return [[int(rng.randint(len(case["labels"]))), rng.randint(1, 41, size=2 * case["n"]).tolist()] for _ in range(n)]
    return dict(case, cands=items(case["na"]), objs=items(case["nb"]))


def make_objs(items, labels):
    """Real TrackedObjects, one tracker each."""
    from norfair import Tracker
    from norfair.filter import NoFilterFactory

    out = []
    for lab, c in items:
        t = Tracker(lambda d, o: 0.0, 1.0, initialization_delay=0, filter_factory=NoFilterFactory())
        t.update([detection(np.array(c, float).reshape(-1, 2), label=label_of(LABELS[labels[lab]]))])
        out.append(t.tracked_objects[0])
    return out


def run(case, rec):
    import contextlib
    import io

    from norfair import Tracker  # noqa: F401
    from norfair import distances as D

    if "many" in case:
        case = expand(case)
        rec.tag("many")
    labels = case["labels"]
    cands_c, objs_c = case["cands"], case["objs"]
    if case["kind"] == "bool":
        if not scipy_ok(case["which"]):
            raise Discard()
        cands_c = [[l, [v % 2 for v in c]] for l, c in cands_c]
        objs_c = [[l, [v % 2 for v in c]] for l, c in objs_c]
    else:
        cands_c = [[l, [v + 0.25 * jitter(i, k, 1) for k, v in enumerate(c)]] for i, (l, c) in enumerate(cands_c)]
        objs_c = [[l, [v + 0.25 * jitter(i, k, 2) for k, v in enumerate(c)]] for i, (l, c) in enumerate(objs_c)]
    objs = make_objs(objs_c, labels)
    if case["tracked"]:
        cands = make_objs(cands_c, labels)
    else:
        cands = [detection(np.array(c, float).reshape(-1, 2), label=label_of(LABELS[labels[l]])) for l, c in cands_c]
        if case.get("sub") and cands:
            cands[0] = type("Person", (type(cands[0]),), {})(cands[0].points, label=cands[0].label)
            rec.tag("subclass of Detection")
    cands_c, objs_c = list(cands_c), list(objs_c)
    for of_cands, i, near in case.get("again", []):
        # the same instance a second time, next to the first or at the end
        things, codes = (cands, cands_c) if of_cands else (objs, objs_c)
        if i < len(things):
            at = i + 1 if near else len(things)
            things.insert(at, things[i])
            codes.insert(at, codes[i])
            rec.tag("the same instance twice")
    seen = []
    kind = case["kind"]
    if kind == "scalar":
        def fn(cand, obj):
            check(any(cand is c for c in cands) and any(obj is o for o in objs), "the distance was not called with (candidate, object)")
            check(cand.label == obj.label, "the distance was called on labels %r and %r", cand.label, obj.label)
            a = cand.estimate if case["tracked"] else cand.points
            return float(a.ravel()[0] * 3 - obj.estimate.ravel()[-1])
        dist = D.ScalarDistance(fn)

        def pair(a, b):
            return a[0] * 3 - b[-1]
    elif kind == "vec":
        def vec(a, b):
            check(a.ndim == 2 and b.ndim == 2 and a.shape[1] == b.shape[1] == 2 * case["n"], "stacked shapes %s, %s", a.shape, b.shape)
            seen.append((a.shape[0], b.shape[0]))
            return a[:, :1] * 3 - b[None, :, -1]
        dist = D.VectorizedDistance(vec)

        def pair(a, b):
            return a[0] * 3 - b[-1]
    else:
        kw = {}
        if kind == "kw":
            name, kw = KW[case["which"]]
            kw = dict(kw)
            if "V" in kw:
                kw["V"] = np.arange(1, 2 * case["n"] + 1, dtype=float)
            if "w" in kw:
                kw["w"] = np.arange(1, 2 * case["n"] + 1, dtype=float) ** 2
            if "VI" in kw:
                kw["VI"] = np.diag(np.arange(1.0, 2 * case["n"] + 1)) + 0.1
            dist = D.ScipyDistance(name, **kw) if kw or name != "euclidean" else D.ScipyDistance()
        else:
            name = case["which"]
            dist = D.get_distance_by_name(name)

        def pair(a, b):
            return float(cdist(np.array([a], float), np.array([b], float), metric=name, **kw)[0, 0])
        rec.tag(name)
    rec.tag(kind)
    with contextlib.redirect_stdout(io.StringIO()):
        m = dist.get_distances(objs, cands)
    m = np.asarray(m)
    check(m.shape == (len(cands), len(objs)), "%d candidates and %d objects gave a matrix of shape %s", len(cands), len(objs), m.shape)
    groups = {}
    for i, (l, c) in enumerate(cands_c):
        for j, (k, o) in enumerate(objs_c):
            la, lb = label_of(LABELS[labels[l]]), label_of(LABELS[labels[k]])
            got = float(m[i, j])
            if la != lb:
                check(got == np.inf, "labels %r and %r are at distance %r", la, lb, got)
                continue
            groups.setdefault(labels[l], []).append((i, j))
            want = pair(c, o)
            if np.isnan(want):
                check(np.isnan(got), "cell [%d, %d] is %r, expected nan", i, j, got)
            else:
                check(abs(got - want) <= 1e-9 * max(1.0, abs(want)), "cell [%d, %d] is %r, expected %r", i, j, got, want)
    if not cands or not objs:
        rec.tag("empty")
    rec.nontrivial = len(groups) > 1 and len(cands) > 2


def unknown_case():
    return st.one_of(
        st.text(max_size=12), st.sampled_from(["", "IOU", "euclid", "l2", "Euclidean", "mean", "giou", "iou ", "none"])
    )


def run_names(case, rec):
    from norfair import distances as D

    known = ["frobenius", "mean_manhattan", "mean_euclidean", "iou", "iou_opt"] + PAIRWISE + BOOL + ["mahalanobis", "seuclidean"]
    for name in known:
        d = D.get_distance_by_name(name)
        check(isinstance(d, D.Distance), "get_distance_by_name(%r) returned %r", name, d)
        check(name in D.AVAILABLE_VECTORIZED_DISTANCES or name in ("frobenius", "mean_manhattan", "mean_euclidean"), "%r missing", name)
    if case in known or case in D.AVAILABLE_VECTORIZED_DISTANCES:
        return
    rec.nontrivial = True
    from norfair import Tracker

    for f in (lambda: D.get_distance_by_name(case), lambda: Tracker(case, 1.0)):
        try:
            f()
        except ValueError:
            continue
        fail("the unknown distance name %r was accepted" % case)


SUBS = [
    Sub("matrix", case_, run, 6000, 150000),
    Sub("many", many_case, run, 480, 8000),
    Sub("names", unknown_case, run_names, 160, 2000),
]
